From 58b15ab482757ada7a2117a8d98dbbfb18721068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 01/99] fix: interval of a repeated group nested in another
 repetition

---
 rbe/src/rbe.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/rbe/src/rbe.rs b/rbe/src/rbe.rs
index ede88bf..6d87152 100644
--- a/rbe/src/rbe.rs
+++ b/rbe/src/rbe.rs
@@ -181,13 +181,18 @@ where
                     if inner.is_empty() {
                         inner
                     } else {
-                        let card_interval = Interval::new(Max::IntMax(card.min.value), card.max.clone());
-                        let intersection = inner.intersection(&card_interval);
-                        if intersection.is_empty() {
-                            Interval::fail()
-                        } else {
-                            Interval::new(Max::IntMax(1), Max::IntMax(1))
-                        }
+                        // `k` iterations of the repetition consume between `k * min` and `k * max`
+                        // copies of the inner expression, so `k` ranges over
+                        // [ceil(inner.n / max), floor(inner.m / min)].
+                        let n = match inner.n {
+                            Max::IntMax(n) => card.max.div_up(&n),
+                            Max::Unbounded => Max::Unbounded,
+                        };
+                        let m = match inner.m {
+                            Max::IntMax(m) => Max::IntMax(card.min.value).div_down(&m),
+                            Max::Unbounded => Max::Unbounded,
+                        };
+                        Interval::new(n, m)
                     }
                 }
             },
-- 
2.43.0


From 3e857033042c39ecfa764d1de5f827fd58c3bd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 02/99] fix: derivative of a repeated group with cardinality
 {0,0} or an uncontrolled symbol

---
 rbe/src/rbe.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/rbe/src/rbe.rs b/rbe/src/rbe.rs
index 6d87152..23a8625 100644
--- a/rbe/src/rbe.rs
+++ b/rbe/src/rbe.rs
@@ -407,16 +407,19 @@ where
                 Self::mk_and(&d, &Rbe::Star { value: value.clone() })
             },
             Rbe::Repeat { ref value, ref card } if card.is_0_0() => {
-                let d = value.deriv(x, n, open, controlled);
-                if d.is_nullable() {
-                    Rbe::Fail {
-                        error: DerivError::CardinalityZeroZeroDeriv { symbol: x.clone() },
-                    }
-                } else {
-                    Rbe::Empty
+                if open && !controlled.contains(x) {
+                    return self.clone();
+                }
+                // A repetition that can't occur can't consume any symbol.
+                Rbe::Fail {
+                    error: DerivError::CardinalityZeroZeroDeriv { symbol: x.clone() },
                 }
             },
             Rbe::Repeat { ref value, ref card } => {
+                if open && !controlled.contains(x) {
+                    // Extra symbol (not controlled): no iteration is consumed.
+                    return self.clone();
+                }
                 let d = value.deriv(x, n, open, controlled);
                 let card = card.minus(n);
                 let rest = Self::mk_range(value, &card);
-- 
2.43.0


From 9baf599e1f379b50a0532f0bd926b71c73d7c7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 03/99] fix: value rejected by every component of its predicate
 was ignored when nothing else matched

---
 rbe/src/rbe_table.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rbe/src/rbe_table.rs b/rbe/src/rbe_table.rs
index 6ffd776..e9b6b7e 100644
--- a/rbe/src/rbe_table.rs
+++ b/rbe/src/rbe_table.rs
@@ -232,7 +232,9 @@ where
             candidates.push(pairs);
         }
 
-        if candidates.is_empty() || pairs_found == 0 {
+        // A value that every component of its key rejects makes the match fail, even when no
+        // other candidate was found: it must not be mistaken for an empty neighbourhood.
+        if candidates.is_empty() || (pairs_found == 0 && prefilter_failed.is_empty()) {
             /*tracing::trace!(
                 "No candidates for rbe: {}, candidates: {:?}, pairs_found: {pairs_found}",
                 self.rbe,
-- 
2.43.0


From 212511704ae9ee00b6cd265d077b049ffc0779ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 04/99] fix: in-memory outgoing arcs reported no remainder when
 no predicate was requested, so CLOSED shapes without outgoing constraints
 accepted anything

---
 rudof_rdf/src/rdf_impl/backend.rs        | 3 ---
 sparql_service/src/srdf_data/rdf_data.rs | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/backend.rs b/rudof_rdf/src/rdf_impl/backend.rs
index c6ece46..b31cf41 100644
--- a/rudof_rdf/src/rdf_impl/backend.rs
+++ b/rudof_rdf/src/rdf_impl/backend.rs
@@ -200,9 +200,6 @@ impl NeighsRDF for RdfBackend {
             return b.outgoing_arcs_from_list(subject, preds).map_err(Into::into);
         }
         // For InMemory and Qlever: default behavior — fetch all triples and filter in memory
-        if preds.is_empty() {
-            return Ok((std::collections::HashMap::new(), Vec::new()));
-        }
         let mut results: std::collections::HashMap<OxNamedNode, std::collections::HashSet<OxTerm>> =
             std::collections::HashMap::new();
         let mut reminder: Vec<OxNamedNode> = Vec::new();
diff --git a/sparql_service/src/srdf_data/rdf_data.rs b/sparql_service/src/srdf_data/rdf_data.rs
index a38de47..4972695 100644
--- a/sparql_service/src/srdf_data/rdf_data.rs
+++ b/sparql_service/src/srdf_data/rdf_data.rs
@@ -476,9 +476,6 @@ impl NeighsRDF for RdfData {
         ),
         Self::Err,
     > {
-        if preds.is_empty() {
-            return Ok((std::collections::HashMap::new(), Vec::new()));
-        }
         // Primary backend (in-memory or endpoint-backed): uses its own FILTER query when available
         let (mut results, reminder) = self
             .primary
-- 
2.43.0


From fc3c5dd985e2f3eb7cd932e9515c3b8c259b57bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 05/99] fix: numeric literals in ShExJ value sets never matched
 data literals

---
 shex_ast/src/ast/object_value.rs    | 12 ++++++------
 shex_ast/src/ast/value_set_value.rs | 15 +++++++--------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/shex_ast/src/ast/object_value.rs b/shex_ast/src/ast/object_value.rs
index 548bc0e..5c37ce8 100644
--- a/shex_ast/src/ast/object_value.rs
+++ b/shex_ast/src/ast/object_value.rs
@@ -317,28 +317,28 @@ impl<'de> Deserialize<'de> for ObjectValue {
                     },
                     Some(ObjectValueType::Decimal) => match value {
                         Some(s) => {
-                            let n = Decimal::from_str(&s).map_err(|e| {
+                            Decimal::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as decimal: Error {e}"))
                             })?;
-                            Ok(ObjectValue::decimal(n))
+                            Ok(ObjectValue::datatype_literal(&s, &IriRef::iri(IriS::new_unchecked(DECIMAL_STR))))
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
                     Some(ObjectValueType::Double) => match value {
                         Some(s) => {
-                            let n = f64::from_str(&s).map_err(|e| {
+                            f64::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as double: Error {e}"))
                             })?;
-                            Ok(ObjectValue::double(n))
+                            Ok(ObjectValue::datatype_literal(&s, &IriRef::iri(IriS::new_unchecked(DOUBLE_STR))))
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
                     Some(ObjectValueType::Integer) => match value {
                         Some(s) => {
-                            let n = isize::from_str(&s).map_err(|e| {
+                            isize::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as integer: Error {e}"))
                             })?;
-                            Ok(ObjectValue::integer(n))
+                            Ok(ObjectValue::datatype_literal(&s, &IriRef::iri(IriS::new_unchecked(INTEGER_STR))))
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
diff --git a/shex_ast/src/ast/value_set_value.rs b/shex_ast/src/ast/value_set_value.rs
index 192ecef..e8ead31 100644
--- a/shex_ast/src/ast/value_set_value.rs
+++ b/shex_ast/src/ast/value_set_value.rs
@@ -6,6 +6,7 @@ use crate::language_exclusion::LanguageExclusion;
 use crate::literal_exclusion::LiteralExclusion;
 use prefixmap::error::DerefError;
 use prefixmap::{DerefIri, IriRef};
+use rudof_iri::IriS;
 use rudof_iri::error::IriSError;
 use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, Lang};
 use rust_decimal::Decimal;
@@ -708,30 +709,28 @@ impl<'de> Deserialize<'de> for ValueSetValue {
                     },
                     Some(ValueSetValueType::Double) => match value {
                         Some(s) => {
-                            let n = f64::from_str(&s).map_err(|e| {
+                            f64::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as double: Error {e}"))
                             })?;
-                            Ok(ValueSetValue::ObjectValue(ObjectValue::double(n)))
+                            Ok(ValueSetValue::datatype_literal(&s, &IriRef::iri(IriS::new_unchecked(DOUBLE_STR))))
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
                     Some(ValueSetValueType::Decimal) => match value {
                         Some(s) => {
-                            let n = Decimal::from_str(&s).map_err(|e| {
+                            Decimal::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as decimal: Error {e}"))
                             })?;
-                            let v = ValueSetValue::ObjectValue(ObjectValue::decimal(n));
-                            Ok(v)
+                            Ok(ValueSetValue::datatype_literal(&s, &IriRef::iri(IriS::new_unchecked(DECIMAL_STR))))
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
                     Some(ValueSetValueType::Integer) => match value {
                         Some(s) => {
-                            let n = isize::from_str(&s).map_err(|e| {
+                            isize::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as integer: Error {e}"))
                             })?;
-                            let v = ValueSetValue::ObjectValue(ObjectValue::integer(n));
-                            Ok(v)
+                            Ok(ValueSetValue::datatype_literal(&s, &IriRef::iri(IriS::new_unchecked(INTEGER_STR))))
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
-- 
2.43.0


From 944e40ff33ec6911b2840876c2d0d494538bb3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 06/99] fix: negative dependency between shapes lost when the
 same shapes also depend positively

---
 shex_ast/src/ir/dependency_graph.rs |  3 +++
 shex_ast/src/ir/shape_expr.rs       | 14 +++++++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/shex_ast/src/ir/dependency_graph.rs b/shex_ast/src/ir/dependency_graph.rs
index acdd6e2..c4da35c 100644
--- a/shex_ast/src/ir/dependency_graph.rs
+++ b/shex_ast/src/ir/dependency_graph.rs
@@ -16,6 +16,9 @@ impl DependencyGraph {
     }
 
     pub fn add_edge(&mut self, from: ShapeLabelIdx, to: ShapeLabelIdx, pos_neg: PosNeg) {
+        // There is one edge per pair of labels: a positive dependency must not hide a negative one.
+        let is_neg = self.graph.edge_weight(from, to).is_some_and(|w| w.is_neg());
+        let pos_neg = if is_neg { PosNeg::Neg } else { pos_neg };
         self.graph.add_edge(from, to, pos_neg);
     }
 
diff --git a/shex_ast/src/ir/shape_expr.rs b/shex_ast/src/ir/shape_expr.rs
index b6f515c..1100de6 100644
--- a/shex_ast/src/ir/shape_expr.rs
+++ b/shex_ast/src/ir/shape_expr.rs
@@ -214,17 +214,17 @@ impl ShapeExpr {
         graph: &mut DependencyGraph,
         pos_neg: PosNeg,
         schema: &'a SchemaIR,
-        visited: &mut Vec<&'a ShapeExpr>,
+        visited: &mut Vec<(&'a ShapeExpr, PosNeg)>,
     ) {
         match self {
             ShapeExpr::ShapeOr { exprs, .. } => {
                 for expr in exprs {
                     if let Some(info) = schema.find_shape_idx(expr) {
                         let expr = info.expr();
-                        if visited.contains(&expr) {
+                        if visited.contains(&(expr, pos_neg)) {
                             continue;
                         } else {
-                            visited.push(expr);
+                            visited.push((expr, pos_neg));
                             expr.add_edges(source, graph, pos_neg, schema, visited);
                         }
                     }
@@ -234,10 +234,10 @@ impl ShapeExpr {
                 for expr in exprs {
                     if let Some(info) = schema.find_shape_idx(expr) {
                         let expr = info.expr();
-                        if visited.contains(&expr) {
+                        if visited.contains(&(expr, pos_neg)) {
                             continue;
                         } else {
-                            visited.push(expr);
+                            visited.push((expr, pos_neg));
                             expr.add_edges(source, graph, pos_neg, schema, visited);
                         }
                     }
@@ -246,9 +246,9 @@ impl ShapeExpr {
             ShapeExpr::ShapeNot { expr, .. } => {
                 if let Some(info) = schema.find_shape_idx(expr) {
                     let expr = info.expr();
-                    if visited.contains(&expr) {
+                    if visited.contains(&(expr, pos_neg.change())) {
                     } else {
-                        visited.push(expr);
+                        visited.push((expr, pos_neg.change()));
                         expr.add_edges(source, graph, pos_neg.change(), schema, visited);
                     }
                 }
-- 
2.43.0


From adcd2ce7a7127b17023bb3017c8c22bcd3228fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 07/99] fix: EXTRA ignored non-conforming values only for node
 constraints, not for shape references

---
 shex_ast/src/ast/object_value.rs    | 15 ++++++++++++---
 shex_ast/src/ast/value_set_value.rs | 15 ++++++++++++---
 shex_ast/src/ir/shape.rs            | 11 +++++++++--
 shex_validation/src/engine.rs       | 14 +++++++++-----
 4 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/shex_ast/src/ast/object_value.rs b/shex_ast/src/ast/object_value.rs
index 5c37ce8..29ecb1f 100644
--- a/shex_ast/src/ast/object_value.rs
+++ b/shex_ast/src/ast/object_value.rs
@@ -320,7 +320,10 @@ impl<'de> Deserialize<'de> for ObjectValue {
                             Decimal::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as decimal: Error {e}"))
                             })?;
-                            Ok(ObjectValue::datatype_literal(&s, &IriRef::iri(IriS::new_unchecked(DECIMAL_STR))))
+                            Ok(ObjectValue::datatype_literal(
+                                &s,
+                                &IriRef::iri(IriS::new_unchecked(DECIMAL_STR)),
+                            ))
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
@@ -329,7 +332,10 @@ impl<'de> Deserialize<'de> for ObjectValue {
                             f64::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as double: Error {e}"))
                             })?;
-                            Ok(ObjectValue::datatype_literal(&s, &IriRef::iri(IriS::new_unchecked(DOUBLE_STR))))
+                            Ok(ObjectValue::datatype_literal(
+                                &s,
+                                &IriRef::iri(IriS::new_unchecked(DOUBLE_STR)),
+                            ))
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
@@ -338,7 +344,10 @@ impl<'de> Deserialize<'de> for ObjectValue {
                             isize::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as integer: Error {e}"))
                             })?;
-                            Ok(ObjectValue::datatype_literal(&s, &IriRef::iri(IriS::new_unchecked(INTEGER_STR))))
+                            Ok(ObjectValue::datatype_literal(
+                                &s,
+                                &IriRef::iri(IriS::new_unchecked(INTEGER_STR)),
+                            ))
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
diff --git a/shex_ast/src/ast/value_set_value.rs b/shex_ast/src/ast/value_set_value.rs
index e8ead31..a75e6ca 100644
--- a/shex_ast/src/ast/value_set_value.rs
+++ b/shex_ast/src/ast/value_set_value.rs
@@ -712,7 +712,10 @@ impl<'de> Deserialize<'de> for ValueSetValue {
                             f64::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as double: Error {e}"))
                             })?;
-                            Ok(ValueSetValue::datatype_literal(&s, &IriRef::iri(IriS::new_unchecked(DOUBLE_STR))))
+                            Ok(ValueSetValue::datatype_literal(
+                                &s,
+                                &IriRef::iri(IriS::new_unchecked(DOUBLE_STR)),
+                            ))
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
@@ -721,7 +724,10 @@ impl<'de> Deserialize<'de> for ValueSetValue {
                             Decimal::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as decimal: Error {e}"))
                             })?;
-                            Ok(ValueSetValue::datatype_literal(&s, &IriRef::iri(IriS::new_unchecked(DECIMAL_STR))))
+                            Ok(ValueSetValue::datatype_literal(
+                                &s,
+                                &IriRef::iri(IriS::new_unchecked(DECIMAL_STR)),
+                            ))
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
@@ -730,7 +736,10 @@ impl<'de> Deserialize<'de> for ValueSetValue {
                             isize::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as integer: Error {e}"))
                             })?;
-                            Ok(ValueSetValue::datatype_literal(&s, &IriRef::iri(IriS::new_unchecked(INTEGER_STR))))
+                            Ok(ValueSetValue::datatype_literal(
+                                &s,
+                                &IriRef::iri(IriS::new_unchecked(INTEGER_STR)),
+                            ))
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
diff --git a/shex_ast/src/ir/shape.rs b/shex_ast/src/ir/shape.rs
index f229546..d4cb4d8 100644
--- a/shex_ast/src/ir/shape.rs
+++ b/shex_ast/src/ir/shape.rs
@@ -107,11 +107,18 @@ impl Shape {
     }*/
 
     pub fn add_edges(&self, source: ShapeLabelIdx, graph: &mut DependencyGraph, pos_neg: PosNeg) {
-        for (_component, _pred, cond) in self.expr.components() {
+        for (_component, pred, cond) in self.expr.components() {
             match cond {
                 rbe::MatchCond::Single(_single_cond) => {},
                 rbe::MatchCond::And(_match_conds) => {},
-                rbe::MatchCond::Ref(r) => graph.add_edge(source, r, pos_neg),
+                rbe::MatchCond::Ref(r) => {
+                    graph.add_edge(source, r, pos_neg);
+                    // The values of an EXTRA predicate that don't conform to the reference are
+                    // ignored, so the shape depends negatively on it as well
+                    if self.extra.contains(&pred) {
+                        graph.add_edge(source, r, pos_neg.change());
+                    }
+                },
             }
         }
     }
diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index 65aa01f..edd0072 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -662,7 +662,7 @@ impl Engine {
                 }
                 // Lenient predicates (in EXTRA): only values that satisfy a leaf condition
                 // participate in the RBE; non-matching values fall into M^∉ and are ignored.
-                matches_any_leaf(shape.triple_expr(), pred, value, ctx)
+                matches_any_leaf(shape.triple_expr(), pred, value, ctx, typing)
             })
             .collect::<Vec<_>>();
         if shape.is_closed() && !reminder.is_empty() {
@@ -2098,14 +2098,18 @@ fn cond_has_ref(cond: &MatchCond<Pred, Node, ShapeLabelIdx, SemanticActionContex
 
 /// Returns true if `(pred, value)` satisfies at least one leaf condition in `expr`.
 ///
-/// For `MatchCond::Ref` leaves the value is kept in M^∈ conservatively — the RBE /
-/// pending-typing path already handles shape-reference validation correctly.
-fn matches_any_leaf(expr: &Expr, pred: &Pred, value: &Node, ctx: &SemanticActionContext) -> bool {
+/// A `MatchCond::Ref` leaf is satisfied when the typing says that the value has the shape.
+/// Conditions that combine references with other conditions keep the value in M^∈ conservatively.
+fn matches_any_leaf(expr: &Expr, pred: &Pred, value: &Node, ctx: &SemanticActionContext, typing: &RefTyping) -> bool {
     for (_, key, cond) in expr.components() {
         if &key != pred {
             continue;
         }
-        if cond_has_ref(&cond) || cond.matches(value, ctx).is_ok() {
+        let satisfied = match &cond {
+            MatchCond::Ref(idx) => typing.contains(&(value.clone(), *idx)),
+            _ => cond_has_ref(&cond) || cond.matches(value, ctx).is_ok(),
+        };
+        if satisfied {
             return true;
         }
     }
-- 
2.43.0


From e514660833d67d2a6859bde80c95c5af629bea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 08/99] fix: string length facets counted bytes instead of
 characters

---
 rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs |  6 +++---
 rudof_rdf/src/rdf_core/term/triple.rs           | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs b/rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs
index fef5ca2..563c1e1 100644
--- a/rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs
+++ b/rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs
@@ -19,14 +19,14 @@ pub enum IriOrBlankNode {
 }
 
 impl IriOrBlankNode {
-    /// Returns the length (in bytes) of this resource's string representation.
+    /// Returns the length (in characters) of this resource's string representation.
     ///
     /// - For blank nodes: the length of the identifier string
     /// - For IRIs: the length of the full IRI string
     pub fn length(&self) -> usize {
         match self {
-            IriOrBlankNode::BlankNode(label) => label.len(),
-            IriOrBlankNode::Iri(iri) => iri.as_str().len(),
+            IriOrBlankNode::BlankNode(label) => label.chars().count(),
+            IriOrBlankNode::Iri(iri) => iri.as_str().chars().count(),
         }
     }
 
diff --git a/rudof_rdf/src/rdf_core/term/triple.rs b/rudof_rdf/src/rdf_core/term/triple.rs
index de7ef97..94a217e 100644
--- a/rudof_rdf/src/rdf_core/term/triple.rs
+++ b/rudof_rdf/src/rdf_core/term/triple.rs
@@ -241,7 +241,7 @@ impl Object {
 
 /// ## Accessors methods
 impl Object {
-    // Returns the length (in bytes) of this object's string representation.
+    /// Returns the length (in characters) of this object's string representation.
     ///
     /// - For IRIs: the length of the IRI string
     /// - For blank nodes: the length of the identifier
@@ -249,14 +249,14 @@ impl Object {
     /// - For triples: the sum of all component lengths
     pub fn length(&self) -> usize {
         match self {
-            Object::Iri(iri) => iri.as_str().len(),
-            Object::BlankNode(bn) => bn.len(),
-            Object::Literal(lit) => lit.lexical_form().len(),
+            Object::Iri(iri) => iri.as_str().chars().count(),
+            Object::BlankNode(bn) => bn.chars().count(),
+            Object::Literal(lit) => lit.lexical_form().chars().count(),
             Object::Triple {
                 subject,
                 predicate,
                 object,
-            } => subject.as_ref().length() + predicate.as_str().len() + object.as_ref().length(),
+            } => subject.as_ref().length() + predicate.as_str().chars().count() + object.as_ref().length(),
         }
     }
 
-- 
2.43.0


From 82a2d5c8ce6d4442dbc123ec7f1dc3a0b3114155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 09/99] fix: ShExC facets and literal exclusions followed by
 white space were not parsed

---
 shex_ast/src/compact/shex_grammar.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 0da4d17..e947fd3 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -23,7 +23,7 @@ use nom::{
     error::ErrorKind,
     error_position,
     multi::{count, fold_many0, many0, many1},
-    sequence::{delimited, pair, preceded},
+    sequence::{delimited, pair, preceded, terminated},
 };
 use nom_locate::LocatedSpan;
 use prefixmap::IriRef;
@@ -463,10 +463,13 @@ fn xs_facet<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, XsFacet> {
 
 /// `[28] stringFacet ::= stringLength INTEGER | REGEXP`
 fn string_facet(i: Span) -> IRes<XsFacet> {
-    alt((
-        string_length,
-        map(regexp, |p| XsFacet::StringFacet(StringFacet::Pattern(p))),
-    ))
+    terminated(
+        alt((
+            string_length,
+            map(regexp, |p| XsFacet::StringFacet(StringFacet::Pattern(p))),
+        )),
+        tws0,
+    )
     .parse(i)
 }
 
@@ -503,7 +506,7 @@ fn pos_integer(i: Span) -> IRes<usize> {
 
 /// `[30] numericFacet ::= numericRange numericLiteral | numericLength INTEGER`
 fn numeric_facet<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, XsFacet> {
-    move |i| alt((numeric_range_lit(), numeric_length_int())).parse(i)
+    move |i| terminated(alt((numeric_range_lit(), numeric_length_int())), tws0).parse(i)
 }
 
 /// `From [30] numeric_range_lit = numericRange numericLiteral``
@@ -1037,7 +1040,7 @@ fn dash<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Span<'a>> {
 
 /// `[54] literalExclusion ::= '-' literal '~'?`
 fn literal_exclusion(i: Span) -> IRes<LiteralExclusion> {
-    let (i, (_, literal, maybe_tilde)) = (dash(), literal(), opt(tilde())).parse(i)?;
+    let (i, (_, literal, _, maybe_tilde)) = (dash(), literal(), tws0, opt(tilde())).parse(i)?;
     let le = match maybe_tilde {
         Some(_) => LiteralExclusion::LiteralStem(literal.lexical_form()),
         None => LiteralExclusion::Literal(literal.lexical_form()),
-- 
2.43.0


From c44eb28993013797675da0cece78fdddd7f195c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 10/99] fix: infinite numbers and NaN satisfied numeric facets

---
 .../rdf_core/term/literal/numeric_literal.rs  | 21 +++++++++++++++++--
 shex_ast/src/ast/cond_kind.rs                 |  4 ++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
index de06ac9..c434ce3 100644
--- a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@@ -252,7 +252,7 @@ impl NumericLiteral {
             // Fast path: direct integer comparison
             (NumericLiteral::Integer(n1), NumericLiteral::Integer(n2)) => n1 < n2,
             // Generic path: convert to decimal for comparison
-            (v1, v2) => v1.to_decimal() < v2.to_decimal(),
+            (v1, v2) => v1.compare(v2).is_some_and(|o| o.is_lt()),
         }
     }
 
@@ -260,7 +260,24 @@ impl NumericLiteral {
     pub fn less_than_or_eq(&self, other: &NumericLiteral) -> bool {
         match (self, other) {
             (NumericLiteral::Integer(n1), NumericLiteral::Integer(n2)) => n1 <= n2,
-            (v1, v2) => v1.to_decimal() <= v2.to_decimal(),
+            (v1, v2) => v1.compare(v2).is_some_and(|o| o.is_le()),
+        }
+    }
+
+    /// Compares two numbers. The numbers that cannot be represented as decimals are the infinite
+    /// ones and those too big, which are compared as doubles, and `NaN`, which is not comparable.
+    fn compare(&self, other: &NumericLiteral) -> Option<std::cmp::Ordering> {
+        match (self.to_decimal(), other.to_decimal()) {
+            (Some(d1), Some(d2)) => Some(d1.cmp(&d2)),
+            _ => self.to_f64()?.partial_cmp(&other.to_f64()?),
+        }
+    }
+
+    fn to_f64(&self) -> Option<f64> {
+        match self {
+            NumericLiteral::Double(d) => Some(*d),
+            NumericLiteral::Float(f) => Some(*f as f64),
+            n => n.to_string().parse().ok(),
         }
     }
 
diff --git a/shex_ast/src/ast/cond_kind.rs b/shex_ast/src/ast/cond_kind.rs
index 9dad5ef..335b7a1 100644
--- a/shex_ast/src/ast/cond_kind.rs
+++ b/shex_ast/src/ast/cond_kind.rs
@@ -316,7 +316,7 @@ pub(crate) fn check_node_min_inclusive(node: &Node, min: NumericLiteral) -> CRes
             msg: "check_node_min_inclusive: as_numeric error".to_string(),
         })
     })?;
-    if !node_num.less_than(&min) {
+    if min.less_than_or_eq(&node_num) {
         Ok(())
     } else {
         Err(Box::new(SchemaIRError::MinInclusiveError {
@@ -339,7 +339,7 @@ pub(crate) fn check_node_min_exclusive(node: &Node, min: NumericLiteral) -> CRes
             msg: "check_node_min_exclusive: as_numeric error".to_string(),
         })
     })?;
-    if !node_num.less_than_or_eq(&min) {
+    if min.less_than(&node_num) {
         Ok(())
     } else {
         Err(Box::new(SchemaIRError::MinExclusiveError {
-- 
2.43.0


From c670d35fd9c5ea96ebdf86823646176aa57a3068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 11/99] fix: lexical forms of typed literals were lost or not
 checked, and value sets did not match them

---
 .../src/rdf_core/term/literal/literal.rs      | 41 ++++++++++++++++---
 .../src/rdf_core/term/literal/xsd_datetime.rs |  3 ++
 shex_ast/src/ir/object_value.rs               |  8 +++-
 3 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index edbdad5..a3cba17 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -647,6 +647,9 @@ impl ConcreteLiteral {
     pub fn numeric_value(&self) -> Option<NumericLiteral> {
         match self {
             Self::NumericLiteral(nl) => Some(nl.clone()),
+            Self::DatatypeLiteral { lexical_form, datatype } if is_xsd_int(datatype) => {
+                lexical_form.parse::<i32>().ok().map(|n| NumericLiteral::long(n as i64))
+            },
             _ => None,
         }
     }
@@ -828,8 +831,9 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a `f64`.
     pub fn parse_double(s: &str) -> Result<f64, String> {
-        // XSD double lexical space does not include "+INF"; only "INF", "-INF", "NaN"
-        if s.eq_ignore_ascii_case("+INF") || s.eq_ignore_ascii_case("+infinity") {
+        // The only names in the XSD double lexical space are "INF", "-INF" and "NaN"
+        if s.contains(|c: char| c.is_ascii_alphabetic() && c != 'e' && c != 'E') && !matches!(s, "INF" | "-INF" | "NaN")
+        {
             return Err(format!("{s} is not a valid xsd:double lexical form"));
         }
         s.parse::<f64>()
@@ -856,7 +860,7 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a `Decimal`.
     pub fn parse_decimal(s: &str) -> Result<Decimal, String> {
-        if s.contains('e') || s.contains('E') {
+        if s.contains(['e', 'E', '_']) {
             return Err("Invalid decimal: unknown character".to_string());
         }
         s.parse::<Decimal>()
@@ -869,8 +873,9 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a float.
     pub fn parse_float(s: &str) -> Result<f32, String> {
-        // XSD float lexical space does not include "+INF"; only "INF", "-INF", "NaN"
-        if s.eq_ignore_ascii_case("+INF") || s.eq_ignore_ascii_case("+infinity") {
+        // The only names in the XSD float lexical space are "INF", "-INF" and "NaN"
+        if s.contains(|c: char| c.is_ascii_alphabetic() && c != 'e' && c != 'E') && !matches!(s, "INF" | "-INF" | "NaN")
+        {
             return Err(format!("{s} is not a valid xsd:float lexical form"));
         }
         s.parse::<f32>()
@@ -1088,7 +1093,16 @@ impl TryFrom<oxrdf::Literal> for ConcreteLiteral {
                         }),
                     }
                 } else {
-                    check_literal_datatype(s.as_ref(), &datatype_iri)
+                    let checked = check_literal_datatype(s.as_ref(), &datatype_iri)?;
+                    // Other typed values are kept only when they write back to the same lexical form.
+                    if checked.lexical_form() == s {
+                        Ok(checked)
+                    } else {
+                        Ok(ConcreteLiteral::DatatypeLiteral {
+                            lexical_form: s.to_string(),
+                            datatype: datatype_iri,
+                        })
+                    }
                 }
             },
 
@@ -1278,6 +1292,17 @@ fn check_literal_datatype(lexical_form: &str, datatype: &IriRef) -> Result<Concr
         ConcreteLiteral::datetime
     );
 
+    // There is no numeric literal of type int: the value is checked and the datatype is kept
+    if is_xsd_int(datatype)
+        && let Err(e) = lexical_form.parse::<i32>()
+    {
+        return Ok(ConcreteLiteral::WrongDatatypeLiteral {
+            lexical_form: lexical_form.to_string(),
+            datatype: datatype.clone(),
+            error: format!("Cannot convert {lexical_form} to int: {e}"),
+        });
+    }
+
     // Unknown or custom datatype: do not validate lexical form
     Ok(ConcreteLiteral::DatatypeLiteral {
         lexical_form: lexical_form.to_string(),
@@ -1285,6 +1310,10 @@ fn check_literal_datatype(lexical_form: &str, datatype: &IriRef) -> Result<Concr
     })
 }
 
+fn is_xsd_int(datatype: &IriRef) -> bool {
+    datatype.get_iri().is_ok_and(|iri| iri.as_str() == XsdVocab::XSD_INT)
+}
+
 /// Validates a lexical form against a specified datatype using a parser and constructor.
 ///
 /// # Parameters
diff --git a/rudof_rdf/src/rdf_core/term/literal/xsd_datetime.rs b/rudof_rdf/src/rdf_core/term/literal/xsd_datetime.rs
index 3990fc4..85b068b 100644
--- a/rudof_rdf/src/rdf_core/term/literal/xsd_datetime.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/xsd_datetime.rs
@@ -22,6 +22,9 @@ impl XsdDateTime {
     ///
     /// Returns `XsdDateTimeParseError` if the string cannot be parsed as a valid XSD DateTime.
     pub fn new(value: &str) -> Result<Self, XsdDateTimeParseError> {
+        // The parser panics on years that do not fit in 64 bits
+        let year = value.trim_start_matches('-').split('-').next().unwrap_or_default();
+        let value = if year.len() > 18 { "" } else { value };
         DateTime::from_str(value)
             .map(|dt| Self { value: dt })
             .map_err(XsdDateTimeParseError::InvalidDateTime)
diff --git a/shex_ast/src/ir/object_value.rs b/shex_ast/src/ir/object_value.rs
index 44c83a2..11d5fe7 100644
--- a/shex_ast/src/ir/object_value.rs
+++ b/shex_ast/src/ir/object_value.rs
@@ -18,7 +18,13 @@ impl ObjectValue {
                 _ => false,
             },
             ObjectValue::ObjectLiteral(literal_expected) => match object {
-                Object::Literal(lit) => lit.match_literal(literal_expected),
+                // Term equality: the same lexical form, language tag and datatype
+                Object::Literal(lit) => {
+                    lit.match_literal(literal_expected)
+                        || (lit.lang() == literal_expected.lang()
+                            && lit.datatype() == literal_expected.datatype()
+                            && lit.lexical_form() == literal_expected.lexical_form())
+                },
                 _ => false,
             },
         }
-- 
2.43.0


From e629ecbfe71a4ac1a659ee2bbeb4fe1cac4d8209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 12/99] fix: ShExJ value sets rejected booleans written 0 or 1
 and integers over 64 bits

---
 shex_ast/src/ast/object_value.rs    | 6 +++++-
 shex_ast/src/ast/value_set_value.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/shex_ast/src/ast/object_value.rs b/shex_ast/src/ast/object_value.rs
index 29ecb1f..a49ab08 100644
--- a/shex_ast/src/ast/object_value.rs
+++ b/shex_ast/src/ast/object_value.rs
@@ -311,6 +311,10 @@ impl<'de> Deserialize<'de> for ObjectValue {
                         Some(s) => match s.as_str() {
                             "false" => Ok(ObjectValue::bool(false)),
                             "true" => Ok(ObjectValue::bool(true)),
+                            "0" | "1" => Ok(ObjectValue::datatype_literal(
+                                &s,
+                                &IriRef::iri(IriS::new_unchecked(BOOLEAN_STR)),
+                            )),
                             _ => Err(de::Error::invalid_value(Unexpected::Str(&s), &self)),
                         },
                         None => Err(de::Error::missing_field("value")),
@@ -341,7 +345,7 @@ impl<'de> Deserialize<'de> for ObjectValue {
                     },
                     Some(ObjectValueType::Integer) => match value {
                         Some(s) => {
-                            isize::from_str(&s).map_err(|e| {
+                            i128::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as integer: Error {e}"))
                             })?;
                             Ok(ObjectValue::datatype_literal(
diff --git a/shex_ast/src/ast/value_set_value.rs b/shex_ast/src/ast/value_set_value.rs
index a75e6ca..08cd4a4 100644
--- a/shex_ast/src/ast/value_set_value.rs
+++ b/shex_ast/src/ast/value_set_value.rs
@@ -703,6 +703,10 @@ impl<'de> Deserialize<'de> for ValueSetValue {
                         Some(s) => match s.as_str() {
                             "false" => Ok(ValueSetValue::ObjectValue(ObjectValue::bool(false))),
                             "true" => Ok(ValueSetValue::ObjectValue(ObjectValue::bool(true))),
+                            "0" | "1" => Ok(ValueSetValue::datatype_literal(
+                                &s,
+                                &IriRef::iri(IriS::new_unchecked(BOOLEAN_STR)),
+                            )),
                             _ => Err(de::Error::invalid_value(Unexpected::Str(&s), &self)),
                         },
                         None => Err(de::Error::missing_field("value")),
@@ -733,7 +737,7 @@ impl<'de> Deserialize<'de> for ValueSetValue {
                     },
                     Some(ValueSetValueType::Integer) => match value {
                         Some(s) => {
-                            isize::from_str(&s).map_err(|e| {
+                            i128::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as integer: Error {e}"))
                             })?;
                             Ok(ValueSetValue::datatype_literal(
-- 
2.43.0


From 90b625c227870a982c2f0fd3c353099cc87db137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 13/99] fix: schemas written in ShExC lost group cardinalities,
 grouping, labels and ABSTRACT, and value sets could not be written

---
 shex_ast/src/compact/compact_printer.rs      |  76 ++--
 shex_ast/src/compact/shex_compact_printer.rs | 418 +++++++++++--------
 2 files changed, 296 insertions(+), 198 deletions(-)

diff --git a/shex_ast/src/compact/compact_printer.rs b/shex_ast/src/compact/compact_printer.rs
index 26b2d2d..0073167 100644
--- a/shex_ast/src/compact/compact_printer.rs
+++ b/shex_ast/src/compact/compact_printer.rs
@@ -13,17 +13,59 @@ pub(crate) fn pp_object_value<'a, A>(
 ) -> DocBuilder<'a, Arena<'a, A>, A> {
     match v {
         ObjectValue::IriRef(i) => pp_iri_ref(i, doc, prefixmap),
-        ObjectValue::Literal(ConcreteLiteral::BooleanLiteral(_value)) => {
-            todo!()
+        ObjectValue::Literal(lit) => pp_literal(lit, doc, prefixmap),
+    }
+}
+
+pub(crate) fn pp_literal<'a, A>(
+    lit: &ConcreteLiteral,
+    doc: &'a Arena<'a, A>,
+    prefixmap: &PrefixMap,
+) -> DocBuilder<'a, Arena<'a, A>, A> {
+    let quoted = doc.text(quoted_string(&lit.lexical_form()));
+    match lit {
+        ConcreteLiteral::StringLiteral { lang: None, .. } => quoted,
+        ConcreteLiteral::StringLiteral { lang: Some(lang), .. } => quoted.append(doc.text(format!("@{lang}"))),
+        ConcreteLiteral::BooleanLiteral(b) => doc.text(b.to_string()),
+        ConcreteLiteral::NumericLiteral(
+            n @ (NumericLiteral::Integer(_) | NumericLiteral::Decimal(_) | NumericLiteral::Double(_)),
+        ) => doc.text(numeric_shorthand(n)),
+        ConcreteLiteral::NumericLiteral(_)
+        | ConcreteLiteral::DatatypeLiteral { .. }
+        | ConcreteLiteral::WrongDatatypeLiteral { .. }
+        | ConcreteLiteral::DatetimeLiteral(_) => {
+            quoted
+                .append(doc.text("^^"))
+                .append(pp_iri_ref(&lit.datatype(), doc, prefixmap))
         },
-        ObjectValue::Literal(ConcreteLiteral::NumericLiteral(num)) => pp_numeric_literal(num, doc),
-        ObjectValue::Literal(ConcreteLiteral::DatatypeLiteral { .. }) => todo!(),
-        ObjectValue::Literal(ConcreteLiteral::WrongDatatypeLiteral { .. }) => todo!(),
-        ObjectValue::Literal(ConcreteLiteral::DatetimeLiteral { .. }) => todo!(),
-        ObjectValue::Literal(ConcreteLiteral::StringLiteral { .. }) => todo!(),
     }
 }
 
+/// Number without quotes nor datatype that is read back with the same type
+pub(crate) fn numeric_shorthand(value: &NumericLiteral) -> String {
+    match value {
+        NumericLiteral::Decimal(d) if d.scale() == 0 => format!("{d}.0"),
+        NumericLiteral::Double(d) => format!("{d:e}"),
+        n => n.lexical_form(),
+    }
+}
+
+/// String between quotes, with the escapes of the compact syntax
+pub(crate) fn quoted_string(str: &str) -> String {
+    let mut result = String::from("\"");
+    for c in str.chars() {
+        match c {
+            '"' => result.push_str("\\\""),
+            '\\' => result.push_str("\\\\"),
+            '\n' => result.push_str("\\n"),
+            '\r' => result.push_str("\\r"),
+            c => result.push(c),
+        }
+    }
+    result.push('"');
+    result
+}
+
 pub(crate) fn pp_label<'a, A>(
     label: &ShapeExprLabel,
     doc: &'a Arena<'a, A>,
@@ -41,26 +83,6 @@ pub(crate) fn pp_bnode<'a, A>(value: &BNode, doc: &'a Arena<'a, A>) -> DocBuilde
     doc.text(format!("{value}"))
 }
 
-fn pp_numeric_literal<'a, A>(value: &NumericLiteral, doc: &'a Arena<'a, A>) -> DocBuilder<'a, Arena<'a, A>, A> {
-    match value {
-        NumericLiteral::Integer(n) => doc.text(n.to_string()),
-        NumericLiteral::Decimal(decimal) => doc.text(decimal.to_string()),
-        NumericLiteral::Double(d) => doc.text(d.to_string()),
-        NumericLiteral::Long(l) => doc.text(l.to_string()),
-        NumericLiteral::Float(n) => doc.text(n.to_string()),
-        NumericLiteral::Byte(n) => doc.text(n.to_string()),
-        NumericLiteral::Short(n) => doc.text(n.to_string()),
-        NumericLiteral::NonNegativeInteger(n) => doc.text(n.to_string()),
-        NumericLiteral::UnsignedLong(n) => doc.text(n.to_string()),
-        NumericLiteral::UnsignedInt(n) => doc.text(n.to_string()),
-        NumericLiteral::UnsignedShort(n) => doc.text(n.to_string()),
-        NumericLiteral::UnsignedByte(n) => doc.text(n.to_string()),
-        NumericLiteral::PositiveInteger(n) => doc.text(n.to_string()),
-        NumericLiteral::NegativeInteger(n) => doc.text(n.to_string()),
-        NumericLiteral::NonPositiveInteger(n) => doc.text(n.to_string()),
-    }
-}
-
 fn pp_iri_ref<'a, A>(value: &IriRef, doc: &'a Arena<'a, A>, prefixmap: &PrefixMap) -> DocBuilder<'a, Arena<'a, A>, A> {
     match value {
         IriRef::Iri(iri) => pp_iri(iri, doc, prefixmap),
diff --git a/shex_ast/src/compact/shex_compact_printer.rs b/shex_ast/src/compact/shex_compact_printer.rs
index a564ed2..b19a3dc 100644
--- a/shex_ast/src/compact/shex_compact_printer.rs
+++ b/shex_ast/src/compact/shex_compact_printer.rs
@@ -2,20 +2,21 @@
 use crate::{
     IriOrStr,
     ast::{
-        Annotation, BNode, NodeConstraint, NodeKind, NumericFacet, ObjectValue, Pattern, Schema, SemAct, Shape,
-        ShapeDecl, ShapeExpr, ShapeExprLabel, StringFacet, TripleExpr, XsFacet, value_set_value::ValueSetValue,
+        Annotation, BNode, IriRefOrWildcard, LangOrWildcard, NodeConstraint, NodeKind, NumericFacet, ObjectValue,
+        Pattern, Schema, SemAct, Shape, ShapeDecl, ShapeExpr, ShapeExprLabel, StringFacet, StringOrWildcard,
+        TripleExpr, TripleExprLabel, TripleExprWrapper, XsFacet, iri_exclusion::IriExclusion,
+        language_exclusion::LanguageExclusion, literal_exclusion::LiteralExclusion, value_set_value::ValueSetValue,
     },
 };
 use colored::*;
 use prefixmap::{IriRef, PrefixMap};
 use pretty::{Arena, DocAllocator, DocBuilder, RefDoc};
 use rudof_iri::IriS;
-use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, Lang, NumericLiteral};
-use rust_decimal::Decimal;
+use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, NumericLiteral};
 use std::{borrow::Cow, io, marker::PhantomData};
 use tracing::trace;
 
-use crate::pp_object_value;
+use crate::{numeric_shorthand, pp_literal, pp_object_value, quoted_string};
 
 /// Struct that can be used to pretty print ShEx schemas
 ///
@@ -253,7 +254,13 @@ where
     }
 
     fn pp_shape_decl(&self, sd: &ShapeDecl) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.pp_label(&sd.id)
+        let abstract_ = if sd.is_abstract {
+            self.keyword("ABSTRACT ")
+        } else {
+            self.doc.nil()
+        };
+        abstract_
+            .append(self.pp_label(&sd.id))
             .append(self.space())
             .append(self.pp_shape_expr(&sd.shape_expr))
     }
@@ -280,7 +287,10 @@ where
                 trace!("Displaying ShapeExpr::ShapeAnd");
                 let mut docs = Vec::new();
                 for sew in shape_exprs {
-                    docs.push(self.pp_shape_expr(&sew.se))
+                    docs.push(self.pp_operand(
+                        &sew.se,
+                        matches!(sew.se, ShapeExpr::ShapeAnd { .. } | ShapeExpr::ShapeOr { .. }),
+                    ))
                 }
                 self.doc
                     .intersperse(docs, self.keyword(" AND "))
@@ -290,18 +300,31 @@ where
             ShapeExpr::ShapeOr { shape_exprs } => {
                 let mut docs = Vec::new();
                 for sew in shape_exprs {
-                    docs.push(self.pp_shape_expr(&sew.se))
+                    docs.push(self.pp_operand(&sew.se, matches!(sew.se, ShapeExpr::ShapeOr { .. })))
                 }
                 self.doc
                     .intersperse(docs, self.keyword(" OR "))
                     .group()
                     .nest(self.indent)
             },
-            ShapeExpr::ShapeNot { shape_expr } => self
-                .doc
-                .nil()
-                .append(self.keyword("NOT "))
-                .append(self.pp_shape_expr(&shape_expr.se)),
+            ShapeExpr::ShapeNot { shape_expr } => self.doc.nil().append(self.keyword("NOT ")).append(self.pp_operand(
+                &shape_expr.se,
+                matches!(
+                    shape_expr.se,
+                    ShapeExpr::ShapeAnd { .. } | ShapeExpr::ShapeOr { .. } | ShapeExpr::ShapeNot { .. }
+                ),
+            )),
+        }
+    }
+
+    fn pp_operand(&self, se: &ShapeExpr, parentheses: bool) -> DocBuilder<'a, Arena<'a, A>, A> {
+        if parentheses {
+            self.doc
+                .text("(")
+                .append(self.pp_shape_expr(se))
+                .append(self.doc.text(")"))
+        } else {
+            self.pp_shape_expr(se)
         }
     }
 
@@ -318,6 +341,7 @@ where
         let extra = self.opt_pp1(&s.extra, self.pp_extra());
         let extends = self.opt_pp1(&s.extends, self.pp_extends());
         let annotations = self.opt_pp1(&s.annotations, self.pp_annotations());
+        let sem_acts = self.opt_pp1(&s.sem_acts, self.pp_actions());
         closed
             .append(extra)
             .append(extends)
@@ -328,6 +352,7 @@ where
             .append(self.doc.line())
             .append(self.doc.text("}"))
             .append(annotations)
+            .append(sem_acts)
             .group()
     }
 
@@ -337,15 +362,15 @@ where
         move |vs, printer| {
             let mut docs = Vec::new();
             for v in vs {
-                docs.push(printer.pp_reference(v))
+                docs.push(
+                    printer
+                        .keyword("EXTENDS")
+                        .append(printer.space())
+                        .append(printer.pp_reference(v))
+                        .append(printer.space()),
+                )
             }
-            printer
-                .doc
-                .nil()
-                .append(printer.keyword("EXTENDS"))
-                .append(printer.space())
-                .append(printer.doc.intersperse(docs, printer.doc.space()))
-                .append(printer.space())
+            printer.doc.concat(docs)
         }
     }
 
@@ -369,18 +394,24 @@ where
         &self,
     ) -> impl Fn(&TripleExpr, &ShExCompactPrinter<'a, A>) -> DocBuilder<'a, Arena<'a, A>, A> + '_ {
         move |te, printer| match te {
-            TripleExpr::EachOf { expressions, .. } => {
-                let mut docs = Vec::new();
-                for e in expressions {
-                    let pp_te = printer.pp_triple_expr()(&e.te, printer);
-                    docs.push(pp_te)
-                }
-                printer
-                    .doc
-                    .intersperse(docs, printer.doc.text(";").append(printer.doc.line()))
-            },
-            TripleExpr::OneOf { .. } => todo!(),
+            TripleExpr::EachOf {
+                id,
+                expressions,
+                min,
+                max,
+                sem_acts,
+                annotations,
+            } => printer.pp_group(id, expressions, ";", min, max, sem_acts, annotations),
+            TripleExpr::OneOf {
+                id,
+                expressions,
+                min,
+                max,
+                sem_acts,
+                annotations,
+            } => printer.pp_group(id, expressions, "|", min, max, sem_acts, annotations),
             TripleExpr::TripleConstraint {
+                id,
                 negated,
                 inverse,
                 predicate,
@@ -389,25 +420,100 @@ where
                 max,
                 sem_acts,
                 annotations,
-                ..
             } => {
                 let doc_expr = match value_expr {
                     Some(se) => printer.pp_shape_expr(se),
                     None => printer.doc.text("."),
                 };
                 printer
-                    .doc
-                    .nil()
+                    .pp_triple_expr_id(id)
                     .append(self.pp_negated(negated))
                     .append(self.pp_inverse(inverse))
                     .append(self.pp_iri_ref(predicate))
                     .append(self.doc.space())
                     .append(doc_expr)
                     .append(self.pp_cardinality(min, max))
-                    .append(self.opt_pp1(sem_acts, self.pp_actions()))
                     .append(self.opt_pp1(annotations, self.pp_annotations()))
+                    .append(self.opt_pp1(sem_acts, self.pp_actions()))
             },
-            TripleExpr::Ref(_) => todo!(),
+            TripleExpr::Ref(label) => printer.doc.text("&").append(printer.pp_triple_expr_label(label)),
+        }
+    }
+
+    /// A group of triple expressions.
+    ///
+    /// It only goes between parentheses when something is said about the whole group.
+    #[allow(clippy::too_many_arguments)]
+    fn pp_group(
+        &self,
+        id: &Option<TripleExprLabel>,
+        expressions: &[TripleExprWrapper],
+        separator: &'static str,
+        min: &Option<i32>,
+        max: &Option<i32>,
+        sem_acts: &Option<Vec<SemAct>>,
+        annotations: &Option<Vec<Annotation>>,
+    ) -> DocBuilder<'a, Arena<'a, A>, A> {
+        let mut docs = Vec::new();
+        for e in expressions {
+            let pp_te = self.pp_triple_expr()(&e.te, self);
+            let nested = matches!(
+                &e.te,
+                TripleExpr::EachOf {
+                    id: None,
+                    min: None,
+                    max: None,
+                    sem_acts: None,
+                    annotations: None,
+                    ..
+                } | TripleExpr::OneOf {
+                    id: None,
+                    min: None,
+                    max: None,
+                    sem_acts: None,
+                    annotations: None,
+                    ..
+                }
+            );
+            docs.push(if nested {
+                self.doc.text("(").append(pp_te).append(self.doc.text(")"))
+            } else {
+                pp_te
+            });
+        }
+        let separator = if separator == ";" {
+            self.doc.text(separator)
+        } else {
+            self.doc.space().append(self.doc.text(separator))
+        };
+        let group = self.doc.intersperse(docs, separator.append(self.doc.line()));
+        if id.is_none() && min.is_none() && max.is_none() && sem_acts.is_none() && annotations.is_none() {
+            return group;
+        }
+        self.pp_triple_expr_id(id)
+            .append(self.doc.text("("))
+            .append(group)
+            .append(self.doc.text(")"))
+            .append(self.pp_cardinality(min, max))
+            .append(self.opt_pp1(annotations, self.pp_annotations()))
+            .append(self.opt_pp1(sem_acts, self.pp_actions()))
+    }
+
+    fn pp_triple_expr_id(&self, id: &Option<TripleExprLabel>) -> DocBuilder<'a, Arena<'a, A>, A> {
+        match id {
+            None => self.doc.nil(),
+            Some(label) => self
+                .doc
+                .text("$")
+                .append(self.pp_triple_expr_label(label))
+                .append(self.doc.space()),
+        }
+    }
+
+    fn pp_triple_expr_label(&self, label: &TripleExprLabel) -> DocBuilder<'a, Arena<'a, A>, A> {
+        match label {
+            TripleExprLabel::IriRef { value } => self.pp_iri_ref(value),
+            TripleExprLabel::BNode { value } => self.pp_bnode(value),
         }
     }
 
@@ -428,37 +534,16 @@ where
     }
 
     fn pp_cardinality(&self, min: &Option<i32>, max: &Option<i32>) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match (min, max) {
-            (Some(1), Some(1)) => self.doc.nil(),
-            (Some(0), Some(1)) => self.doc.space().append(self.doc.text("?")),
-            (Some(0), Some(-1)) => self.doc.space().append(self.doc.text("*")),
-            (Some(1), Some(-1)) => self.doc.space().append(self.doc.text("+")),
-            (Some(1), None) => self.doc.space().append(self.doc.text("+")),
-            (Some(m), Some(n)) => self.doc.space().append(
-                self.enclose_space(
-                    "{",
-                    self.doc
-                        .text(m.to_string())
-                        .append(self.doc.text(","))
-                        .append(self.doc.text(n.to_string())),
-                    "}",
-                ),
-            ),
-            (Some(m), None) => self
-                .doc
-                .space()
-                .append(self.doc.text("{"))
-                .append(self.doc.text(m.to_string()))
-                .append(self.doc.text(",}")),
-            (None, Some(-1)) => self.doc.space().append(self.doc.text("*")),
-            (None, Some(n)) => self
-                .doc
-                .space()
-                .append(self.doc.text("{,"))
-                .append(self.doc.text(n.to_string()))
-                .append(self.doc.text("}")),
-            (None, None) => self.doc.nil(),
-        }
+        // The default value of both bounds is 1
+        let card = match (min.unwrap_or(1), max.unwrap_or(1)) {
+            (1, 1) => return self.doc.nil(),
+            (0, 1) => "?".to_string(),
+            (0, -1) => "*".to_string(),
+            (1, -1) => "+".to_string(),
+            (m, -1) => format!("{{{m},}}"),
+            (m, n) => format!("{{{m},{n}}}"),
+        };
+        self.doc.space().append(self.doc.text(card))
     }
 
     fn pp_extra(&self) -> impl Fn(&Vec<IriRef>, &ShExCompactPrinter<'a, A>) -> DocBuilder<'a, Arena<'a, A>, A> {
@@ -472,6 +557,7 @@ where
                 .nil()
                 .append(printer.keyword("EXTRA "))
                 .append(printer.doc.intersperse(docs, printer.doc.space()))
+                .append(printer.doc.space())
         }
     }
 
@@ -494,31 +580,16 @@ where
 
     fn pp_literal(&self, literal: &ConcreteLiteral) -> DocBuilder<'a, Arena<'a, A>, A> {
         match literal {
-            ConcreteLiteral::StringLiteral { lexical_form, lang } => self.pp_string_literal(lexical_form, lang),
-            ConcreteLiteral::DatatypeLiteral {
-                lexical_form: _,
-                datatype: _,
-            } => todo!(),
-            ConcreteLiteral::WrongDatatypeLiteral {
-                lexical_form: _,
-                datatype: _,
-                error: _,
-            } => todo!(),
-            ConcreteLiteral::NumericLiteral(lit) => self.pp_numeric_literal(lit),
-            ConcreteLiteral::BooleanLiteral(_) => todo!(),
-            ConcreteLiteral::DatetimeLiteral(_xsd_date_time) => todo!(),
-        }
-    }
-
-    fn pp_string_literal(&self, lexical_form: &str, lang: &Option<Lang>) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match lang {
-            Some(_) => todo!(),
-            None => self.pp_string(lexical_form),
+            ConcreteLiteral::StringLiteral {
+                lexical_form,
+                lang: None,
+            } => self.pp_string(lexical_form),
+            lit => pp_literal(lit, self.doc, &self.prefixmap),
         }
     }
 
     fn pp_string(&self, str: &str) -> DocBuilder<'a, Arena<'a, A>, A> {
-        let s = format!("\"{str}\"");
+        let s = quoted_string(str);
         if let Some(color) = self.string_color {
             self.doc.text(s.as_str().color(color).to_string())
         } else {
@@ -527,6 +598,9 @@ where
     }
 
     fn pp_node_constraint(&self, nc: &NodeConstraint) -> DocBuilder<'a, Arena<'a, A>, A> {
+        if *nc == NodeConstraint::default() {
+            return self.doc.text(".");
+        }
         self.opt_pp(nc.node_kind(), self.pp_node_kind())
             .append(self.opt_pp(nc.datatype(), self.pp_datatype()))
             .append(self.opt_pp(nc.values(), self.pp_value_set()))
@@ -621,7 +695,23 @@ where
             Some(flags) => flags.clone(),
             None => "".to_string(),
         };
-        let str = format!("/{}/{}", pattern.str, flags);
+        let mut str = String::from("/");
+        let mut chars = pattern.str.chars();
+        while let Some(c) = chars.next() {
+            match c {
+                '\\' => {
+                    str.push(c);
+                    str.extend(chars.next());
+                },
+                '/' => str.push_str("\\/"),
+                '\n' => str.push_str("\\n"),
+                '\r' => str.push_str("\\r"),
+                '\t' => str.push_str("\\t"),
+                c => str.push(c),
+            }
+        }
+        str.push('/');
+        str.push_str(&flags);
         self.doc.text(str)
     }
 
@@ -635,14 +725,72 @@ where
 
     fn pp_value_set_value(&self, v: &ValueSetValue) -> DocBuilder<'a, Arena<'a, A>, A> {
         match v {
-            ValueSetValue::LanguageStem { .. } => todo!(),
-            ValueSetValue::LanguageStemRange { .. } => todo!(),
             ValueSetValue::ObjectValue(ov) => pp_object_value(ov, self.doc, &self.prefixmap),
-            ValueSetValue::IriStem { .. } => todo!(),
-            ValueSetValue::IriStemRange { .. } => todo!(),
-            ValueSetValue::LiteralStem { .. } => todo!(),
-            ValueSetValue::LiteralStemRange { .. } => todo!(),
-            ValueSetValue::Language { .. } => todo!(),
+            ValueSetValue::Language { language_tag } => self.doc.text(format!("@{language_tag}")),
+            ValueSetValue::LanguageStem { stem } => self.pp_range(Self::language_stem(stem), vec![]),
+            ValueSetValue::LanguageStemRange { stem, exclusions } => self.pp_range(
+                Self::language_stem(stem),
+                exclusions
+                    .iter()
+                    .flatten()
+                    .map(|e| match e {
+                        LanguageExclusion::Language(lang) => format!("@{lang}"),
+                        LanguageExclusion::LanguageStem(lang) => format!("@{lang}~"),
+                    })
+                    .collect(),
+            ),
+            ValueSetValue::IriStem { stem } => self.pp_range(format!("{}~", self.iri_ref_text(stem)), vec![]),
+            ValueSetValue::IriStemRange { stem, exclusions } => self.pp_range(
+                match stem {
+                    IriRefOrWildcard::IriRef(stem) => format!("{}~", self.iri_ref_text(stem)),
+                    IriRefOrWildcard::Wildcard => ".".to_string(),
+                },
+                exclusions
+                    .iter()
+                    .flatten()
+                    .map(|e| match e {
+                        IriExclusion::Iri(iri) => self.iri_ref_text(iri),
+                        IriExclusion::IriStem(iri) => format!("{}~", self.iri_ref_text(iri)),
+                    })
+                    .collect(),
+            ),
+            ValueSetValue::LiteralStem { stem } => self.pp_range(format!("{}~", quoted_string(stem)), vec![]),
+            ValueSetValue::LiteralStemRange { stem, exclusions } => self.pp_range(
+                match stem {
+                    StringOrWildcard::String(stem) => format!("{}~", quoted_string(stem)),
+                    StringOrWildcard::Wildcard => ".".to_string(),
+                },
+                exclusions
+                    .iter()
+                    .flatten()
+                    .map(|e| match e {
+                        LiteralExclusion::Literal(str) => quoted_string(str),
+                        LiteralExclusion::LiteralStem(str) => format!("{}~", quoted_string(str)),
+                    })
+                    .collect(),
+            ),
+        }
+    }
+
+    fn language_stem(stem: &LangOrWildcard) -> String {
+        match stem {
+            LangOrWildcard::Lang(lang) => format!("@{lang}~"),
+            LangOrWildcard::Wildcard => ".".to_string(),
+        }
+    }
+
+    fn pp_range(&self, stem: String, exclusions: Vec<String>) -> DocBuilder<'a, Arena<'a, A>, A> {
+        let mut doc = self.doc.text(stem);
+        for exclusion in exclusions {
+            doc = doc.append(self.doc.text(" - ")).append(self.doc.text(exclusion));
+        }
+        doc
+    }
+
+    fn iri_ref_text(&self, iri: &IriRef) -> String {
+        match iri {
+            IriRef::Iri(iri) => self.prefixmap.qualify(iri),
+            IriRef::Prefixed { prefix, local } => format!("{prefix}:{local}"),
         }
     }
 
@@ -659,85 +807,13 @@ where
     }
 
     fn pp_numeric_literal(&self, value: &NumericLiteral) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match value {
-            NumericLiteral::Integer(n) => self.pp_isize(&(*n as isize)),
-            NumericLiteral::Decimal(d) => self.pp_decimal(d),
-            NumericLiteral::Double(d) => self.pp_double(d),
-            NumericLiteral::Long(l) => self.pp_isize(&(*l as isize)),
-            NumericLiteral::Float(f) => self.pp_float(&(*f as f64)),
-            NumericLiteral::Byte(b) => self.pp_byte(b),
-            NumericLiteral::Short(s) => self.pp_short(s),
-            NumericLiteral::NonNegativeInteger(n) => self.pp_non_negative_integer(n),
-            NumericLiteral::UnsignedLong(u) => self.pp_unsigned_long(u),
-            NumericLiteral::UnsignedInt(u) => self.pp_unsigned_int(u),
-            NumericLiteral::UnsignedShort(u) => self.pp_unsigned_short(u),
-            NumericLiteral::UnsignedByte(n) => self.pp_unsigned_byte(n),
-            NumericLiteral::PositiveInteger(n) => self.pp_positive_integer(n),
-            NumericLiteral::NegativeInteger(n) => self.pp_negative_integer(n),
-            NumericLiteral::NonPositiveInteger(n) => self.pp_non_positive_integer(n),
-        }
+        self.doc.text(numeric_shorthand(value))
     }
 
     fn pp_bnode(&self, value: &BNode) -> DocBuilder<'a, Arena<'a, A>, A> {
         self.doc.text(format!("{value}"))
     }
 
-    fn pp_isize(&self, value: &isize) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_decimal(&self, value: &Decimal) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_double(&self, value: &f64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_float(&self, value: &f64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_byte(&self, value: &i8) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_short(&self, value: &i16) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_non_negative_integer(&self, value: &u128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_long(&self, value: &u64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_int(&self, value: &u32) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_short(&self, value: &u16) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_byte(&self, value: &u8) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_positive_integer(&self, value: &u128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_negative_integer(&self, value: &i128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_non_positive_integer(&self, value: &i128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
     fn pp_usize(&self, value: &usize) -> DocBuilder<'a, Arena<'a, A>, A> {
         self.doc.text(value.to_string())
     }
@@ -799,7 +875,7 @@ where
                 Some(str) => self
                     .doc
                     .text("{")
-                    .append(self.doc.text(str))
+                    .append(self.doc.text(str.replace('\\', "\\\\").replace('%', "\\%")))
                     .append(self.doc.text("%}")),
             })
     }
-- 
2.43.0


From d07449d47ab6f9b14c720314c822e3f7f4e68a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 14/99] fix: ShExC inline EXTENDS panicked, brackets dropped
 inner declarations and some keywords were case sensitive

---
 shex_ast/src/compact/shex_grammar.rs | 96 ++++++++++++++++++++++++----
 1 file changed, 82 insertions(+), 14 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index e947fd3..9a8cd82 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -537,8 +537,12 @@ fn numeric_length_int<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, XsFacet> {
 
 fn numeric_length(i: Span) -> IRes<NumericLength> {
     alt((
-        map(token_tws("TOTALDIGITS"), |_| NumericLength::TotalDigits),
-        map(token_tws("FRACTIONDIGITS"), |_| NumericLength::FractionDigits),
+        map(terminated(tag_no_case("TOTALDIGITS"), tws0), |_| {
+            NumericLength::TotalDigits
+        }),
+        map(terminated(tag_no_case("FRACTIONDIGITS"), tws0), |_| {
+            NumericLength::FractionDigits
+        }),
     ))
     .parse(i)
 }
@@ -546,10 +550,18 @@ fn numeric_length(i: Span) -> IRes<NumericLength> {
 /// `[31] numericRange ::= "MININCLUSIVE" | "MINEXCLUSIVE" | "MAXINCLUSIVE" | "MAXEXCLUSIVE"`
 fn numeric_range(i: Span) -> IRes<NumericRange> {
     alt((
-        map(token_tws("MININCLUSIVE"), |_| NumericRange::MinInclusive),
-        map(token_tws("MAXINCLUSIVE"), |_| NumericRange::MaxInclusive),
-        map(token_tws("MINEXCLUSIVE"), |_| NumericRange::MinExclusive),
-        map(token_tws("MAXEXCLUSIVE"), |_| NumericRange::MaxExclusive),
+        map(terminated(tag_no_case("MININCLUSIVE"), tws0), |_| {
+            NumericRange::MinInclusive
+        }),
+        map(terminated(tag_no_case("MAXINCLUSIVE"), tws0), |_| {
+            NumericRange::MaxInclusive
+        }),
+        map(terminated(tag_no_case("MINEXCLUSIVE"), tws0), |_| {
+            NumericRange::MinExclusive
+        }),
+        map(terminated(tag_no_case("MAXEXCLUSIVE"), tws0), |_| {
+            NumericRange::MaxExclusive
+        }),
     ))
     .parse(i)
 }
@@ -618,11 +630,10 @@ fn inline_shape_definition(i: Span) -> IRes<ShapeExpr> {
         None
     };
     let mut extra = Vec::new();
+    let mut extends = Vec::new();
     for q in qualifiers {
         match q {
-            Qualifier::Extends(_) => {
-                todo!()
-            },
+            Qualifier::Extends(label) => extends.push(label),
             Qualifier::Closed => {},
             Qualifier::Extra(ps) => {
                 for p in ps {
@@ -632,7 +643,11 @@ fn inline_shape_definition(i: Span) -> IRes<ShapeExpr> {
         }
     }
     let maybe_extra = if extra.is_empty() { None } else { Some(extra) };
-    Ok((i, ShapeExpr::shape(Shape::new(closed, maybe_extra, maybe_triple_expr))))
+    let maybe_extends = if extends.is_empty() { None } else { Some(extends) };
+    Ok((
+        i,
+        ShapeExpr::shape(Shape::new(closed, maybe_extra, maybe_triple_expr).with_extends(maybe_extends)),
+    ))
 }
 
 fn maybe_triple_expr<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Option<TripleExpr>> {
@@ -671,7 +686,7 @@ fn extension<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Qualifier> {
 fn closed<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Qualifier> {
     map_error(
         move |i| {
-            let (i, _) = token_tws("CLOSED")(i)?;
+            let (i, _) = symbol("CLOSED")(i)?;
             Ok((i, Qualifier::Closed))
         },
         || ShExParseError::ExpectedClosed,
@@ -682,7 +697,7 @@ fn closed<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Qualifier> {
 fn extra_property_set<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Qualifier> {
     map_error(
         move |i| {
-            let (i, (_, ps)) = (token_tws("EXTRA"), cut(many1((predicate, tws0)))).parse(i)?;
+            let (i, (_, ps)) = (symbol("EXTRA"), cut(many1((predicate, tws0)))).parse(i)?;
             let ps = ps.into_iter().map(|(p, _)| p).collect();
             Ok((i, Qualifier::Extra(ps)))
         },
@@ -778,7 +793,12 @@ fn unary_triple_expr_opt1(i: Span) -> IRes<TripleExpr> {
         alt((bracketed_triple_expr(), triple_constraint())),
     )
         .parse(i)?;
-    Ok((i, te.with_id(id)))
+    let te = match id {
+        None => te,
+        Some(_) if has_label(&te) => TripleExpr::each_of(vec![te]).with_id(id),
+        Some(_) => te.with_id(id),
+    };
+    Ok((i, te))
 }
 
 // From unary_triple_expr_opt1
@@ -803,7 +823,12 @@ fn bracketed_triple_expr<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, TripleExpr> {
                 semantic_actions,
             )
                 .parse(i)?;
+            // What follows the brackets can't replace what the expression inside already declares
             let mut te = te;
+            let declares = maybe_card.is_some() || !annotations.is_empty() || sem_acts.is_some();
+            if declares && has_declarations(&te) {
+                te = TripleExpr::each_of(vec![te]);
+            }
             if let Some(card) = maybe_card {
                 te = te.with_min(card.min());
                 te = te.with_max(card.max());
@@ -811,13 +836,56 @@ fn bracketed_triple_expr<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, TripleExpr> {
             if !annotations.is_empty() {
                 te = te.with_annotations(Some(annotations));
             }
-            te = te.with_sem_acts(sem_acts);
+            if sem_acts.is_some() {
+                te = te.with_sem_acts(sem_acts);
+            }
             Ok((i, te))
         },
         || ShExParseError::BracketedTripleExpr,
     )
 }
 
+/// Checks if a triple expression already has a label
+fn has_label(te: &TripleExpr) -> bool {
+    match te {
+        TripleExpr::EachOf { id, .. } | TripleExpr::OneOf { id, .. } | TripleExpr::TripleConstraint { id, .. } => {
+            id.is_some()
+        },
+        TripleExpr::Ref(_) => true,
+    }
+}
+
+/// Checks if a triple expression already has a label, cardinality, annotations or semantic actions
+fn has_declarations(te: &TripleExpr) -> bool {
+    match te {
+        TripleExpr::EachOf {
+            id,
+            min,
+            max,
+            sem_acts,
+            annotations,
+            ..
+        }
+        | TripleExpr::OneOf {
+            id,
+            min,
+            max,
+            sem_acts,
+            annotations,
+            ..
+        }
+        | TripleExpr::TripleConstraint {
+            id,
+            min,
+            max,
+            sem_acts,
+            annotations,
+            ..
+        } => id.is_some() || min.is_some() || max.is_some() || sem_acts.is_some() || annotations.is_some(),
+        TripleExpr::Ref(_) => true,
+    }
+}
+
 /// `[45] tripleConstraint ::= senseFlags? predicate inlineShapeExpression cardinality? annotation* semanticActions`
 fn triple_constraint<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, TripleExpr> {
     map_error(
-- 
2.43.0


From 28a4738e0c7ffd842b8be8c103f2382bb74e4cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 15/99] fix: ShExC triple expressions were parsed in
 exponential time of their nesting

---
 shex_ast/src/compact/shex_grammar.rs | 51 +++++++++++++++++-----------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 9a8cd82..f830f72 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -711,24 +711,30 @@ fn triple_expression<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, TripleExpr> {
 }
 
 /// `[37] oneOfTripleExpr ::= groupTripleExpr | multiElementOneOf`
+///
+/// Both alternatives start with the same group, which is parsed only once
 fn one_of_triple_expr<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, TripleExpr> {
     map_error(
-        move |i| alt((multi_element_one_of(), group_triple_expr())).parse(i),
+        move |i| {
+            let (i, te) = group_triple_expr()(i)?;
+            match multi_element_one_of(te.clone(), i) {
+                Err(Err::Error(_)) => Ok((i, te)),
+                other => other,
+            }
+        },
         || ShExParseError::OneOfTripleExpr,
     )
 }
 
-/// `[38] multiElementOneOf ::= groupTripleExpr ('|' groupTripleExpr)+`
-fn multi_element_one_of<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, TripleExpr> {
-    move |i| {
-        let (i, (te1, _, tes)) = (group_triple_expr(), tws0, rest_group_triple_expr).parse(i)?;
-        let mut rs = vec![te1];
-        for te in tes {
-            rs.push(te);
-        }
-        let te = TripleExpr::one_of(rs);
-        Ok((i, te))
+/// `[38] multiElementOneOf ::= groupTripleExpr ('|' groupTripleExpr)+`, after the first group
+fn multi_element_one_of(te1: TripleExpr, i: Span) -> IRes<TripleExpr> {
+    let (i, (_, tes)) = (tws0, rest_group_triple_expr).parse(i)?;
+    let mut rs = vec![te1];
+    for te in tes {
+        rs.push(te);
     }
+    let te = TripleExpr::one_of(rs);
+    Ok((i, te))
 }
 
 /// From [38] rest_group_triple_expr = ('|' groupTripleExpr)+
@@ -743,20 +749,27 @@ fn rest_group_triple_expr(i: Span) -> IRes<Vec<TripleExpr>> {
 }
 
 /// `[40] groupTripleExpr ::= singleElementGroup | multiElementGroup`
+///
+/// Both alternatives start with the same expression, which is parsed only once
 fn group_triple_expr<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, TripleExpr> {
-    move |i| alt((multi_element_group, single_element_group)).parse(i)
+    move |i| {
+        let (i, te) = unary_triple_expr()(i)?;
+        match multi_element_group(te.clone(), i) {
+            Err(Err::Error(_)) => single_element_group(te, i),
+            other => other,
+        }
+    }
 }
 
-/// `[41] singleElementGroup ::= unaryTripleExpr ';'?`
-fn single_element_group(i: Span) -> IRes<TripleExpr> {
-    let (i, (te, _, _)) = (unary_triple_expr(), tws0, opt(char(';'))).parse(i)?;
+/// `[41] singleElementGroup ::= unaryTripleExpr ';'?`, after the expression
+fn single_element_group(te: TripleExpr, i: Span) -> IRes<TripleExpr> {
+    let (i, (_, _)) = (tws0, opt(char(';'))).parse(i)?;
     Ok((i, te))
 }
 
-/// `[42] multiElementGroup ::= unaryTripleExpr (';' unaryTripleExpr)+ ';'?`
-fn multi_element_group(i: Span) -> IRes<TripleExpr> {
-    let (i, (te1, _, tes, _, _)) =
-        (unary_triple_expr(), tws0, rest_unary_triple_expr, tws0, opt(char(';'))).parse(i)?;
+/// `[42] multiElementGroup ::= unaryTripleExpr (';' unaryTripleExpr)+ ';'?`, after the first expression
+fn multi_element_group(te1: TripleExpr, i: Span) -> IRes<TripleExpr> {
+    let (i, (_, tes, _, _)) = (tws0, rest_unary_triple_expr, tws0, opt(char(';'))).parse(i)?;
     let mut rs = vec![te1];
     for t in tes {
         rs.push(t);
-- 
2.43.0


From 8786f1f23bf78831d1f8ff2733de40b455d30a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 16/99] fix: a zero maximum broke precompiled schemas, and an
 abstract shape without descendants aborted validation

---
 rbe/src/max.rs                | 2 +-
 shex_validation/src/engine.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rbe/src/max.rs b/rbe/src/max.rs
index abccb26..a6cd4d8 100644
--- a/rbe/src/max.rs
+++ b/rbe/src/max.rs
@@ -113,7 +113,7 @@ impl From<i64> for Max {
     fn from(m: i64) -> Self {
         match m {
             -1 => Max::Unbounded,
-            n if n > 0 => Max::IntMax(n as usize),
+            n if n >= 0 => Max::IntMax(n as usize),
             _ => panic!("Error converting i64 to Max, value {m} < -1"),
         }
     }
diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index edd0072..16bdbd5 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -355,7 +355,7 @@ impl Engine {
             if schema.is_abstract(idx) {
                 let descendants = schema.descendants(idx);
                 if descendants.is_empty() {
-                    return Err(ValidatorError::AbstractShapeNoDescendants { idx: *idx });
+                    return Ok(Either::Left(vec![ValidatorError::AbstractShapeNoDescendants { idx: *idx }]));
                 }
                 // Each descendant gets its own prove call so it builds a fresh typing
                 // with all the dependencies it actually needs (RESTRICTS semantics).
-- 
2.43.0


From a1988d5d107de0f47e005a88b2ccb292939c4568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 17/99] fix: booleans in value sets could not be read back from
 precompiled schemas

---
 rudof_rdf/src/rdf_core/term/literal/literal.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index a3cba17..bc82846 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -1153,7 +1153,8 @@ impl From<&ConcreteLiteral> for oxrdf::Literal {
 // Helper Functions
 // ============================================================================
 
-/// Serializes a boolean literal as a string ("true" or "false").
+/// Serializes a boolean literal as a string ("true" or "false"), or as a plain boolean
+/// in binary formats, which read it back as one.
 ///
 /// # Parameters
 /// - `value`: A reference to the boolean value to serialize.
@@ -1162,7 +1163,11 @@ fn serialize_boolean_literal<S>(value: &bool, serializer: S) -> result::Result<S
 where
     S: Serializer,
 {
-    serializer.serialize_str(if *value { "true" } else { "false" })
+    if serializer.is_human_readable() {
+        serializer.serialize_str(if *value { "true" } else { "false" })
+    } else {
+        serializer.serialize_bool(*value)
+    }
 }
 
 /// Validates a literal's lexical form against its declared datatype.
-- 
2.43.0


From c0f5a32c112fd1313cf0c47ec45f7ae5530e105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 18/99] fix: inherited triple expressions were checked against
 all arcs of their predicates, also those of sibling shapes

---
 shex_validation/src/engine.rs | 76 ++++-------------------------------
 1 file changed, 8 insertions(+), 68 deletions(-)

diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index 16bdbd5..ad62936 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -355,7 +355,9 @@ impl Engine {
             if schema.is_abstract(idx) {
                 let descendants = schema.descendants(idx);
                 if descendants.is_empty() {
-                    return Ok(Either::Left(vec![ValidatorError::AbstractShapeNoDescendants { idx: *idx }]));
+                    return Ok(Either::Left(vec![ValidatorError::AbstractShapeNoDescendants {
+                        idx: *idx,
+                    }]));
                 }
                 // Each descendant gets its own prove call so it builds a fresh typing
                 // with all the dependencies it actually needs (RESTRICTS semantics).
@@ -851,8 +853,7 @@ impl Engine {
                 }
                 // Triple is not needed by any leaf bucket.
                 // Keep it only if it is also NOT covered by any ancestor (case b: truly invalid).
-                // If it IS covered by an ancestor (case a), exclude it — the exhaustive check
-                // in check_node_extends_main_shape already handles it.
+                // If it IS covered by an ancestor (case a), exclude it.
                 let covered_by_ancestor = all_ancestor_exprs.iter().any(|rbe| {
                     rbe.components()
                         .any(|(_, key, cond)| &key == pred && cond.matches(value, ctx).is_ok())
@@ -1421,71 +1422,10 @@ impl Engine {
             let mut reasons = Vec::new();
 
             if let Some(main_shape) = maybe_main_shape {
-                // For shapes with their own triple expression alongside extends (e.g.,
-                // EXTENDS @<Parent> { <p> [4] }), validate the triple expression using
-                // exhaustive semantics: pre-filter triples to those matching any component's
-                // value condition, then check cardinality. This handles open shapes correctly
-                // since extra values that don't match any constraint are simply ignored.
-                // Skip this check for shapes with shape-reference value conditions (MatchCond::Ref),
-                // which require the partition algorithm to correctly distribute triples.
-                let main_preds = main_shape.preds();
-                let no_shape_refs = main_shape
-                    .triple_expr()
-                    .components()
-                    .all(|(_, _, cond)| !cond_has_ref(&cond));
-                // Skip this shortcut when the ancestor's predicates overlap with the child
-                // shape's own declared predicates. In that case a single triple can satisfy
-                // both the ancestor's condition (e.g. a datatype constraint) and the child's
-                // own, more specific condition (e.g. a value set), and how many triples go to
-                // each side is exactly the counting problem the partition algorithm in
-                // check_node_shape_extends solves; this exhaustive pre-filter cannot (it can
-                // only keep-or-exclude a triple wholesale, not split a run of them between
-                // the two buckets in the right proportions).
-                let overlaps_child_preds = shape.preds().iter().any(|p| main_preds.contains(p));
-                if !main_preds.is_empty() && no_shape_refs && !overlaps_child_preds {
-                    let (all_values, _) = self.neighs(node, main_preds, rdf)?;
-                    let all_values_ctx: Vec<_> = all_values
-                        .iter()
-                        .map(|(p, v)| {
-                            (
-                                p.clone(),
-                                v.clone(),
-                                SemanticActionContext::triple(node, p, v)
-                                    .with_registry(schema.semantic_actions_registry_arc()),
-                            )
-                        })
-                        .collect();
-                    // Keep only triples where the value satisfies some component's condition
-                    let filtered: Vec<_> = all_values_ctx
-                        .iter()
-                        .filter(|(pred, value, ctx)| {
-                            main_shape
-                                .triple_expr()
-                                .components()
-                                .any(|(_, key, cond)| &key == pred && cond.matches(value, ctx).is_ok())
-                        })
-                        .cloned()
-                        .collect();
-                    match check_expr_neigh(main_shape.triple_expr(), &filtered, node, shape, idx, typing)? {
-                        Either::Left(errs) => {
-                            errors.push(ValidatorError::ParentShapeMainShapeFailed {
-                                node: Box::new(node.clone()),
-                                shape: Box::new(main_shape.clone()),
-                                idx: *idx,
-                                errors: ValidatorErrors::new(errs),
-                            });
-                        },
-                        Either::Right(rs) => {
-                            reasons.push(Reason::ParentShapeMainShapePassed {
-                                node: node.clone(),
-                                shape: Box::new(main_shape.clone()),
-                                idx: *idx,
-                                reasons: Reasons::new(rs),
-                            });
-                        },
-                    }
-                }
-                // Recursively check node constraints and triple expressions through the
+                // The main triple expression needs its share of the triples, which the other
+                // buckets may compete for: the partitions in check_node_shape_extends decide it.
+                // Only the node constraints are checked here.
+                // Recursively check node constraints through the
                 // ancestor extends chain.
                 for e in main_shape.extends() {
                     match self.check_node_extends_main_shape(node, e, &main_shape, schema, rdf, typing)? {
-- 
2.43.0


From 3e44abe6887dbbcd68408de6284fff29dc2ae258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 19/99] fix: SHACL paths from literals have no outgoing arcs,
 and complex paths can be inverted

---
 rudof_rdf/src/rdf_core/neighs_rdf.rs | 14 ++++++++++----
 rudof_rdf/src/rdf_core/shacl_path.rs | 15 +++++++++++++++
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/neighs_rdf.rs b/rudof_rdf/src/rdf_core/neighs_rdf.rs
index ec19298..2144ac8 100644
--- a/rudof_rdf/src/rdf_core/neighs_rdf.rs
+++ b/rudof_rdf/src/rdf_core/neighs_rdf.rs
@@ -325,6 +325,10 @@ pub trait NeighsRDF: Rdf {
     fn objects_for_shacl_path(&self, subject: &Self::Term, path: &SHACLPath) -> Result<HashSet<Self::Term>, RDFError> {
         match path {
             SHACLPath::Predicate { pred } => {
+                // a node that cannot be a subject, like a literal, has no outgoing arcs
+                if Self::term_as_subject(subject).is_err() {
+                    return Ok(HashSet::new());
+                }
                 let pred: Self::IRI = pred.clone().into();
                 self.objects_for(subject, &pred)
             },
@@ -349,10 +353,12 @@ pub trait NeighsRDF: Rdf {
                     Ok(all_objects)
                 },
             },
-            SHACLPath::Inverse { path } => {
-                let pred: Self::IRI = path.pred().unwrap().clone().into();
-                let objects = self.subjects_for(&pred, subject)?;
-                Ok(objects)
+            SHACLPath::Inverse { path } => match path.as_ref() {
+                SHACLPath::Predicate { pred } => {
+                    let pred: Self::IRI = pred.clone().into();
+                    self.subjects_for(&pred, subject)
+                },
+                path => self.objects_for_shacl_path(subject, &path.inverted()),
             },
             SHACLPath::ZeroOrMore { path } => {
                 let mut all_objects = HashSet::new();
diff --git a/rudof_rdf/src/rdf_core/shacl_path.rs b/rudof_rdf/src/rdf_core/shacl_path.rs
index c222608..4e0392e 100644
--- a/rudof_rdf/src/rdf_core/shacl_path.rs
+++ b/rudof_rdf/src/rdf_core/shacl_path.rs
@@ -101,6 +101,21 @@ impl SHACLPath {
     pub fn zero_or_one(path: SHACLPath) -> Self {
         SHACLPath::ZeroOrOne { path: Box::new(path) }
     }
+
+    /// Returns a path that connects the same pairs of nodes as this one, in the opposite direction.
+    ///
+    /// Only predicates are inverted in the result: `^(p1 / p2)` becomes `^p2 / ^p1`.
+    pub fn inverted(&self) -> SHACLPath {
+        match self {
+            SHACLPath::Predicate { .. } => SHACLPath::inverse(self.clone()),
+            SHACLPath::Alternative { paths } => SHACLPath::alternative(paths.iter().map(Self::inverted).collect()),
+            SHACLPath::Sequence { paths } => SHACLPath::sequence(paths.iter().rev().map(Self::inverted).collect()),
+            SHACLPath::Inverse { path } => path.as_ref().clone(),
+            SHACLPath::ZeroOrMore { path } => SHACLPath::zero_or_more(path.inverted()),
+            SHACLPath::OneOrMore { path } => SHACLPath::one_or_more(path.inverted()),
+            SHACLPath::ZeroOrOne { path } => SHACLPath::zero_or_one(path.inverted()),
+        }
+    }
 }
 
 impl Display for SHACLPath {
-- 
2.43.0


From 80ad7ca2167e39b8bfb3892bfbe339ee09321fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 20/99] fix: reading a list value, as of sh:ignoredProperties,
 keeps the focus for the following parsers

---
 .../parser/rdf_node_parser/constructors/property.rs    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/parser/rdf_node_parser/constructors/property.rs b/rudof_rdf/src/rdf_core/parser/rdf_node_parser/constructors/property.rs
index e64af6b..b73dd9e 100644
--- a/rudof_rdf/src/rdf_core/parser/rdf_node_parser/constructors/property.rs
+++ b/rudof_rdf/src/rdf_core/parser/rdf_node_parser/constructors/property.rs
@@ -163,9 +163,15 @@ where
     type Output = Vec<RDF::Term>;
 
     fn parse_focused(&self, rdf: &mut RDF) -> Result<Self::Output, RDFError> {
-        SingleValuePropertyParser::new(self.property.clone())
+        let focus = rdf.get_focus().cloned();
+        let list = SingleValuePropertyParser::new(self.property.clone())
             .then(|node| SetFocusParser::new(node).then(|_| ListParser::new()))
-            .parse_focused(rdf)
+            .parse_focused(rdf);
+        // The parsers that follow continue with the original focus node
+        if let Some(focus) = focus {
+            rdf.set_focus(&focus);
+        }
+        list
     }
 }
 
-- 
2.43.0


From a679a36026a6bd13bd8a2b81c8eb33d4554a6304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 21/99] fix: property shapes honour sh:deactivated

---
 shacl/src/ast/property_shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shacl/src/ast/property_shape.rs b/shacl/src/ast/property_shape.rs
index 22a08ba..e711387 100644
--- a/shacl/src/ast/property_shape.rs
+++ b/shacl/src/ast/property_shape.rs
@@ -157,7 +157,7 @@ impl ASTPropertyShape {
     }
 
     pub fn is_deactivated(&self) -> bool {
-        self.deactivated
+        self.deactivated || self.components.contains(&ASTComponent::Deactivated(true))
     }
 
     pub fn severity(&self) -> Option<&Severity> {
-- 
2.43.0


From 25c8fa7b1adb73013e91e33b633254278d1b7bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 22/99] fix: sh:minLength and sh:maxLength count characters
 instead of bytes

---
 .../src/validator/constraints/core/string_based/max_length.rs | 4 ++--
 .../src/validator/constraints/core/string_based/min_length.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/shacl/src/validator/constraints/core/string_based/max_length.rs b/shacl/src/validator/constraints/core/string_based/max_length.rs
index 07ae4eb..7108ed3 100644
--- a/shacl/src/validator/constraints/core/string_based/max_length.rs
+++ b/shacl/src/validator/constraints/core/string_based/max_length.rs
@@ -35,10 +35,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MaxLength {
                 return true;
             }
             if let Ok(iri) = S::term_as_iri(vn) {
-                return iri.as_str().len() > self.max_length() as usize;
+                return iri.as_str().chars().count() > self.max_length() as usize;
             }
             if let Ok(lit) = S::term_as_literal(vn) {
-                return lit.lexical_form().len() > self.max_length() as usize;
+                return lit.lexical_form().chars().count() > self.max_length() as usize;
             }
             true
         };
diff --git a/shacl/src/validator/constraints/core/string_based/min_length.rs b/shacl/src/validator/constraints/core/string_based/min_length.rs
index b1e6dec..646577c 100644
--- a/shacl/src/validator/constraints/core/string_based/min_length.rs
+++ b/shacl/src/validator/constraints/core/string_based/min_length.rs
@@ -35,10 +35,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MinLength {
                 return true;
             }
             if let Ok(iri) = S::term_as_iri(vn) {
-                return iri.as_str().len() < self.min_length() as usize;
+                return iri.as_str().chars().count() < self.min_length() as usize;
             }
             if let Ok(lit) = S::term_as_literal(vn) {
-                return lit.lexical_form().len() < self.min_length() as usize;
+                return lit.lexical_form().chars().count() < self.min_length() as usize;
             }
             true
         };
-- 
2.43.0


From 967311ade01806e022ce43d19ec9c24267625bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 23/99] fix: SHACL instances follow rdfs:subClassOf at any
 distance

---
 .../validator/constraints/core/value/class.rs | 35 +++++++------------
 shacl/src/validator/engine/native.rs          | 35 ++++++++-----------
 shacl/src/validator/index/class.rs            | 16 ++++++---
 3 files changed, 38 insertions(+), 48 deletions(-)

diff --git a/shacl/src/validator/constraints/core/value/class.rs b/shacl/src/validator/constraints/core/value/class.rs
index 7b90934..7dfbf49 100644
--- a/shacl/src/validator/constraints/core/value/class.rs
+++ b/shacl/src/validator/constraints/core/value/class.rs
@@ -40,18 +40,7 @@ impl<S: NeighsRDF + 'static> NativeValidator<S> for Class {
                 return true;
             }
             let term = S::object_as_term(self.class_rule());
-
-            !store
-                .objects_for(vn, &RdfVocab::rdf_type().into())
-                .unwrap_or_default()
-                .iter()
-                .any(|ctype| {
-                    ctype == &term
-                        || store
-                            .objects_for(ctype, &RdfsVocab::rdfs_subclass_of_str().into())
-                            .unwrap_or_default()
-                            .contains(&term)
-                })
+            !is_instance(store, vn, &term)
         };
 
         validate_with(
@@ -94,7 +83,7 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clas
                 let conforms = if vn.is_literal() {
                     false
                 } else if vn.is_blank_node() {
-                    blank_is_instance::<S>(store, vn, &class_term)?
+                    is_instance(store, vn, &class_term)
                 } else {
                     let vn_sparql = term_as_sparql::<S>(vn).unwrap_or_default();
                     let query = formatdoc! {"
@@ -121,14 +110,14 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clas
     }
 }
 
-#[cfg(feature = "sparql")]
-fn blank_is_instance<S: NeighsRDF>(store: &S, vn: &S::Term, class_term: &S::Term) -> Result<bool, ValidationError> {
-    let types = store.objects_for(vn, &RdfVocab::rdf_type().into()).unwrap_or_default();
-    Ok(types.iter().any(|ctype| {
-        ctype == class_term
-            || store
-                .objects_for(ctype, &RdfsVocab::rdfs_subclass_of_str().into())
-                .unwrap_or_default()
-                .contains(class_term)
-    }))
+/// Whether a node has the class, or a subclass of it at any distance, as a type.
+fn is_instance<S: NeighsRDF>(store: &S, node: &S::Term, class: &S::Term) -> bool {
+    let types = SHACLPath::sequence(vec![
+        SHACLPath::iri(RdfVocab::rdf_type()),
+        SHACLPath::zero_or_more(SHACLPath::iri(RdfsVocab::rdfs_subclass_of_str())),
+    ]);
+    store
+        .objects_for_shacl_path(node, &types)
+        .unwrap_or_default()
+        .contains(class)
 }
diff --git a/shacl/src/validator/engine/native.rs b/shacl/src/validator/engine/native.rs
index 4d428d0..392f18f 100644
--- a/shacl/src/validator/engine/native.rs
+++ b/shacl/src/validator/engine/native.rs
@@ -10,6 +10,7 @@ use rudof_iri::IriS;
 use rudof_rdf::rdf_core::term::{Object, Term, Triple};
 use rudof_rdf::rdf_core::vocabs::{RdfVocab, RdfsVocab};
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
+use std::collections::HashSet;
 use std::fmt::Debug;
 use std::sync::Arc;
 
@@ -56,17 +57,13 @@ impl NativeEngine {
         class: &Object,
     ) -> Result<FocusNodes<RDF>, ValidationError> {
         if let Some(index) = &self.class_index {
-            let focus_nodes = index.instances_of(class).map(|obj| -> RDF::Term { obj.clone().into() });
+            let instances = index.instances_of_with_subclasses(class);
+            let focus_nodes = instances.into_iter().map(|obj| -> RDF::Term { obj.clone().into() });
             return Ok(FocusNodes::from_iter(focus_nodes));
         }
 
         let cls: RDF::Term = class.clone().into();
-        let focus_nodes = store
-            .shacl_instances_of(&cls)
-            .map_err(ValidationError::new_graph_error::<RDF>)?
-            .map(|s| RDF::subject_as_term(&s));
-
-        Ok(FocusNodes::from_iter(focus_nodes))
+        Ok(FocusNodes::new(shacl_instances(store, &cls)?))
     }
 
     fn target_subject_of_impl<RDF: NeighsRDF + Debug + 'static>(
@@ -108,20 +105,18 @@ impl NativeEngine {
         }
 
         let term: RDF::Term = shape.clone().into();
-        let targets = store.subjects_for(&RdfVocab::rdf_type().into(), &term)?;
-
-        let subclass_targets = store
-            .subjects_for(&RdfsVocab::rdfs_subclass_of_str().into(), &term)?
-            .into_iter()
-            .flat_map(move |subclass| {
-                store
-                    .subjects_for(&RdfVocab::rdf_type().into(), &subclass)
-                    .into_iter()
-                    .flatten()
-            });
-
-        Ok(FocusNodes::from_iter(targets.into_iter().chain(subclass_targets)))
+        Ok(FocusNodes::new(shacl_instances(store, &term)?))
+    }
+}
+
+/// Returns the instances of a class and of its subclasses, at any distance.
+fn shacl_instances<RDF: NeighsRDF>(store: &RDF, class: &RDF::Term) -> Result<HashSet<RDF::Term>, ValidationError> {
+    let subclasses = SHACLPath::zero_or_more(SHACLPath::inverse(SHACLPath::iri(RdfsVocab::rdfs_subclass_of_str())));
+    let mut instances = HashSet::new();
+    for class in store.objects_for_shacl_path(class, &subclasses)? {
+        instances.extend(store.subjects_for(&RdfVocab::rdf_type().into(), &class)?);
     }
+    Ok(instances)
 }
 
 #[cfg(not(feature = "sparql"))]
diff --git a/shacl/src/validator/index/class.rs b/shacl/src/validator/index/class.rs
index 5ad5cd2..265aa4c 100644
--- a/shacl/src/validator/index/class.rs
+++ b/shacl/src/validator/index/class.rs
@@ -15,7 +15,7 @@ use std::collections::{HashMap, HashSet};
 /// - `class_instances`: `class_object → { subject_as_term, … }` built from all
 ///   `?s rdf:type ?class` triples.
 /// - `subclass_map`: `class_object → { subclass_as_term, … }` built from all
-///   `?sub rdfs:subClassOf ?class` triples (one level).
+///   `?sub rdfs:subClassOf ?class` triples (one level, followed transitively by the lookups).
 #[derive(Debug, Clone, Default)]
 pub(crate) struct ClassIndex {
     /// Maps each class to the set of its direct `rdf:type` instances
@@ -68,13 +68,19 @@ impl ClassIndex {
         self.subclass_map.get(class).into_iter().flat_map(|set| set.iter())
     }
 
-    /// Returns instances of the class and instances of all its direct subclasses.
+    /// Returns the SHACL instances of the class: its instances and those of its subclasses,
+    /// following any number of `rdfs:subClassOf` steps.
     pub fn instances_of_with_subclasses(&self, class: &Object) -> HashSet<&Object> {
         let mut result: HashSet<_> = self.instances_of(class).collect();
+        let mut visited: HashSet<&Object> = HashSet::from([class]);
+        let mut pending: Vec<&Object> = vec![class];
 
-        for subclass in self.subclasses_of(class) {
-            for instance in self.instances_of(subclass) {
-                result.insert(instance);
+        while let Some(current) = pending.pop() {
+            for subclass in self.subclasses_of(current) {
+                if visited.insert(subclass) {
+                    result.extend(self.instances_of(subclass));
+                    pending.push(subclass);
+                }
             }
         }
 
-- 
2.43.0


From c4b2cff54368484bfe03454f24c7732e0a8e9733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:30 +0000
Subject: [PATCH 24/99] fix: language tags of terms are written in lower case,
 as those that are read

---
 rudof_rdf/src/rdf_core/term/literal/literal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index bc82846..83bcb1e 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -1126,7 +1126,11 @@ impl From<ConcreteLiteral> for oxrdf::Literal {
 
         match value {
             ConcreteLiteral::StringLiteral { lexical_form, lang } => match lang {
-                Some(l) => oxrdf::Literal::new_language_tagged_literal_unchecked(lexical_form, l.to_string()),
+                // oxrdf represents language tags in lower case
+                Some(l) => oxrdf::Literal::new_language_tagged_literal_unchecked(
+                    lexical_form,
+                    l.to_string().to_ascii_lowercase(),
+                ),
                 None => lexical_form.into(),
             },
 
-- 
2.43.0


From 367ed070e0f379905fc196b16dc2df86b389f41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:30 +0000
Subject: [PATCH 25/99] fix: numbers of any datatype are comparable with each
 other

---
 .../src/rdf_core/term/literal/literal.rs      | 31 ++++++++++++-------
 .../rdf_core/term/literal/numeric_literal.rs  |  7 ++---
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index 83bcb1e..7a33334 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -3,6 +3,7 @@ use crate::rdf_core::{
     term::literal::{Lang, NumericLiteral, XsdDateTime},
 };
 use rust_decimal::Decimal;
+use std::borrow::Cow;
 use std::{
     fmt::{self, Debug, Display},
     hash::Hash,
@@ -643,9 +644,20 @@ impl ConcreteLiteral {
         }
     }
 
+    /// Returns the literal with its value when it is a datatype literal that has one.
+    fn typed_value(&self) -> Cow<'_, Self> {
+        match self {
+            Self::DatatypeLiteral { lexical_form, datatype } => match check_literal_datatype(lexical_form, datatype) {
+                Ok(value) if !matches!(value, Self::WrongDatatypeLiteral { .. }) => Cow::Owned(value),
+                _ => Cow::Borrowed(self),
+            },
+            _ => Cow::Borrowed(self),
+        }
+    }
+
     /// Returns the numeric literal value, if this literal is numeric.
     pub fn numeric_value(&self) -> Option<NumericLiteral> {
-        match self {
+        match &*self.typed_value() {
             Self::NumericLiteral(nl) => Some(nl.clone()),
             Self::DatatypeLiteral { lexical_form, datatype } if is_xsd_int(datatype) => {
                 lexical_form.parse::<i32>().ok().map(|n| NumericLiteral::long(n as i64))
@@ -940,15 +952,18 @@ impl Default for ConcreteLiteral {
 #[allow(clippy::non_canonical_partial_ord_impl)]
 impl PartialOrd for ConcreteLiteral {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        match (self, other) {
+        // Numeric comparison (may return None for NaN)
+        if let (Some(n1), Some(n2)) = (self.numeric_value(), other.numeric_value()) {
+            return n1.partial_cmp(&n2);
+        }
+        match (&*self.typed_value(), &*other.typed_value()) {
             // Chronological comparison for datetime literals
             (Self::DatetimeLiteral(dt1), Self::DatetimeLiteral(dt2)) => dt1.partial_cmp(dt2),
             // Lexicographic comparison for plain string literals
             (Self::StringLiteral { lexical_form: lf1, .. }, Self::StringLiteral { lexical_form: lf2, .. }) => {
                 Some(lf1.cmp(lf2))
             },
-            // Datatype literals: try numeric comparison for numeric types (cross-type allowed),
-            // fall back to lexical for same-datatype non-numeric, incomparable otherwise
+            // Other datatypes fall back to lexical for same-datatype, incomparable otherwise
             (
                 Self::DatatypeLiteral {
                     lexical_form: lf1,
@@ -958,13 +973,7 @@ impl PartialOrd for ConcreteLiteral {
                     lexical_form: lf2,
                     datatype: dt2,
                 },
-            ) => match (check_literal_datatype(lf1, dt1), check_literal_datatype(lf2, dt2)) {
-                (Ok(Self::NumericLiteral(n1)), Ok(Self::NumericLiteral(n2))) => n1.partial_cmp(&n2),
-                _ if dt1 == dt2 => Some(lf1.cmp(lf2)),
-                _ => None,
-            },
-            // Numeric comparison (may return None for NaN)
-            (Self::NumericLiteral(n1), Self::NumericLiteral(n2)) => n1.partial_cmp(n2),
+            ) if dt1 == dt2 => Some(lf1.cmp(lf2)),
             // Boolean ordering: false < true
             (Self::BooleanLiteral(b1), Self::BooleanLiteral(b2)) => Some(b1.cmp(b2)),
             // Wrong-datatype literals have an invalid lexical form and are incomparable for ordering
diff --git a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
index c434ce3..7c46797 100644
--- a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@@ -654,12 +654,9 @@ impl Display for NumericLiteral {
 
 /// Ordering based on decimal conversion for cross-type comparisons.
 impl PartialOrd for NumericLiteral {
-    // Convert both to Decimal and compare
-    // Returns None if conversion fails (e.g., NaN)
+    // Returns None for numbers that are not comparable (e.g., NaN)
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        let self_decimal = self.to_decimal()?;
-        let other_decimal = other.to_decimal()?;
-        self_decimal.partial_cmp(&other_decimal)
+        self.compare(other)
     }
 }
 
-- 
2.43.0


From 12c39b6757dffa3661b99be246884b053965aec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:30 +0000
Subject: [PATCH 26/99] fix: sh:message of a shape replaces the messages of its
 components

---
 shacl/src/validator/engine/validate.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/shacl/src/validator/engine/validate.rs b/shacl/src/validator/engine/validate.rs
index d40124e..9212889 100644
--- a/shacl/src/validator/engine/validate.rs
+++ b/shacl/src/validator/engine/validate.rs
@@ -1,5 +1,5 @@
 use crate::error::ValidationError;
-use crate::ir::{IRSchema, IRShape, ReifierInfo};
+use crate::ir::{IRComponent, IRSchema, IRShape, ReifierInfo};
 use crate::types::MessageMap;
 use crate::validator::engine::Engine;
 use crate::validator::engine::focus_nodes_ops::FocusNodesOps;
@@ -90,7 +90,13 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
                 self.path(),
                 shapes_graph,
             )?;
-            component_validation_results.extend(results);
+            // The messages of the shape replace those of its components, except those of SPARQL
+            // constraints, which have their own
+            match self.message() {
+                Some(message) if !matches!(component, IRComponent::BasicSparql(_)) => component_validation_results
+                    .extend(results.into_iter().map(|result| result.with_message(message.clone()))),
+                _ => component_validation_results.extend(results),
+            }
         }
 
         // After validating the constraints of the current shape, validate any nested
-- 
2.43.0


From 928a92df40cf89fce91142f6772ba436ab4b3053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:30 +0000
Subject: [PATCH 27/99] fix: results of nested property shapes count for the
 focus node of the outer shape

---
 shacl/src/validator/engine/validate.rs | 62 ++++++++++++--------------
 1 file changed, 29 insertions(+), 33 deletions(-)

diff --git a/shacl/src/validator/engine/validate.rs b/shacl/src/validator/engine/validate.rs
index 9212889..09192e3 100644
--- a/shacl/src/validator/engine/validate.rs
+++ b/shacl/src/validator/engine/validate.rs
@@ -114,52 +114,48 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
         // unique (value-node, shape) pair is only truly validated once; subsequent
         // invocations for the same pair return the cached results, correctly producing
         // one violation entry per path that led to the offending node.
-        let mut property_shapes_validation_results = Vec::new();
+        //
+        // These results have the value nodes as focus nodes, but they count as results of the
+        // current shape for the outer focus node.
+        let mut by_focus: HashMap<Object, Vec<ValidationResult>> = HashMap::new();
         for ps in self.property_shapes().iter() {
             let shape = shapes_graph.get_shape_from_idx_e(ps)?;
-            for (_, vn) in value_nodes.iter() {
+            for (fnode, vn) in value_nodes.iter() {
                 let results = shape.validate(store, runner, Some(vn), Some(self), shapes_graph)?;
-                property_shapes_validation_results.extend(results);
+                by_focus.entry(RDF::term_as_object(fnode)?).or_default().extend(results);
             }
         }
 
-        let reification_results = if let Some(reifier_info) = self.reifier_info() {
-            validate_reifiers(
-                self,
-                store,
-                runner,
-                source_shape,
-                reifier_info,
-                &uncached_focus_nodes,
-                shapes_graph,
-            )?
-        } else {
-            Vec::new()
-        };
+        if let Some(reifier_info) = self.reifier_info() {
+            for fnode in uncached_focus_nodes.iter() {
+                let results = validate_reifiers(
+                    self,
+                    store,
+                    runner,
+                    source_shape,
+                    reifier_info,
+                    &FocusNodes::single(fnode.clone()),
+                    shapes_graph,
+                )?;
+                by_focus.entry(RDF::term_as_object(fnode)?).or_default().extend(results);
+            }
+        }
+
+        for result in component_validation_results {
+            by_focus.entry(result.focus_node().clone()).or_default().push(result);
+        }
 
         // Collect all NEW validation results (from uncached focus nodes)
-        let new_results: Vec<ValidationResult> = component_validation_results
-            .into_iter()
-            .chain(property_shapes_validation_results)
-            .chain(reification_results)
-            .collect();
+        let new_results: Vec<ValidationResult> = by_focus.values().flatten().cloned().collect();
 
         // Record new results in the cache per focus node
         if let Some(idx) = idx {
-            // Group results by focus node in O(M), then record each in O(1)
-            let mut by_focus: HashMap<Object, Vec<ValidationResult>> = uncached_focus_nodes
-                .iter()
-                .filter_map(|n| RDF::term_as_object(n).ok())
-                .map(|obj| (obj, Vec::new()))
-                .collect();
-            for r in &new_results {
-                if let Some(bucket) = by_focus.get_mut(r.focus_node()) {
-                    bucket.push(r.clone());
+            for node in uncached_focus_nodes.iter() {
+                if let Ok(obj) = RDF::term_as_object(node) {
+                    let node_results = by_focus.remove(&obj).unwrap_or_default();
+                    runner.record_validation(obj, *idx, node_results);
                 }
             }
-            for (node_object, node_results) in by_focus {
-                runner.record_validation(node_object, *idx, node_results);
-            }
         }
 
         // Merge cached results with newly computed results
-- 
2.43.0


From ad477822c2f0e3b0782da73f6be644302ad1975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:30 +0000
Subject: [PATCH 28/99] fix: SHACL property pair and range components compare
 terms as SPARQL does

---
 .../core/property_pair/disjoint.rs            |  41 +++----
 .../constraints/core/property_pair/equals.rs  |  50 ++++----
 .../core/property_pair/less_than.rs           | 110 ++++++++----------
 .../core/property_pair/less_than_or_equals.rs | 110 ++++++++----------
 .../core/value_range/max_exclusive.rs         |   6 +-
 .../core/value_range/max_inclusive.rs         |   6 +-
 .../core/value_range/min_exclusive.rs         |   6 +-
 .../core/value_range/min_inclusive.rs         |   6 +-
 shacl/src/validator/constraints/mod.rs        |  29 +++++
 9 files changed, 185 insertions(+), 179 deletions(-)

diff --git a/shacl/src/validator/constraints/core/property_pair/disjoint.rs b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
index 966e841..c24f5a3 100644
--- a/shacl/src/validator/constraints/core/property_pair/disjoint.rs
+++ b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
@@ -2,8 +2,8 @@ use crate::error::ValidationError;
 use crate::ir::components::Disjoint;
 use crate::ir::{IRComponent, IRSchema, IRShape};
 #[cfg(feature = "sparql")]
-use crate::validator::constraints::BasicSparqlValidator;
-use crate::validator::constraints::{NativeValidator, validate_with_focus};
+use crate::validator::constraints::{BasicSparqlValidator, term_as_sparql};
+use crate::validator::constraints::{NativeValidator, property_values, validate_with_focus};
 use crate::validator::engine::Engine;
 use crate::validator::iteration::ValueNodeIteration;
 use crate::validator::nodes::ValueNodes;
@@ -13,8 +13,7 @@ use indoc::formatdoc;
 #[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::query::QueryRDF;
 #[cfg(feature = "sparql")]
-use rudof_rdf::rdf_core::term::Object;
-use rudof_rdf::rdf_core::term::Triple;
+use rudof_rdf::rdf_core::term::{Object, Term};
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
@@ -30,23 +29,9 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Disjoint {
         maybe_path: Option<&SHACLPath>,
         _: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
-        let check_fn = |f: &S::Term, vn: &S::Term| {
-            let subject = S::term_as_subject(f).unwrap();
-            let iri: S::IRI = self.iri().clone().into();
-            let triples_to_compare = match store.triples_with_subject_predicate(&subject, &iri) {
-                Ok(iter) => iter,
-                Err(_) => return true,
-            };
-
-            for triple in triples_to_compare {
-                let value1 = S::term_as_object(vn).unwrap();
-                let value2 = S::term_as_object(triple.obj()).unwrap();
-
-                if value1 == value2 {
-                    return true;
-                }
-            }
-            false
+        let check_fn = |f: &S::Term, vn: &S::Term| match property_values(store, f, self.iri()) {
+            Ok(values) => values.contains(vn),
+            Err(_) => true,
         };
 
         validate_with_focus(
@@ -81,11 +66,17 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Disj
             let fnode_obj = S::term_as_object(fnode)?;
 
             for vn in nodes.iter() {
-                let query = formatdoc! {"
-                    ASK {{ {} <{}> {} }}
-                ", fnode, self.iri(), vn};
+                // blank nodes are not constants in a query, and literals have no properties
+                let ask = match (term_as_sparql::<S>(fnode), term_as_sparql::<S>(vn)) {
+                    (Some(node), Some(value)) if fnode.is_iri() => {
+                        let query = formatdoc! {"
+                            ASK {{ {} <{}> {} }}
+                        ", node, self.iri(), value};
 
-                let ask = store.query_ask(&query).map_err(ValidationError::ask_query_error::<S>)?;
+                        store.query_ask(&query).map_err(ValidationError::ask_query_error::<S>)?
+                    },
+                    _ => property_values(store, fnode, self.iri())?.contains(vn),
+                };
 
                 if ask {
                     let value = S::term_as_object(vn).ok();
diff --git a/shacl/src/validator/constraints/core/property_pair/equals.rs b/shacl/src/validator/constraints/core/property_pair/equals.rs
index f60ad68..37febbd 100644
--- a/shacl/src/validator/constraints/core/property_pair/equals.rs
+++ b/shacl/src/validator/constraints/core/property_pair/equals.rs
@@ -2,8 +2,8 @@ use crate::error::ValidationError;
 use crate::ir::components::Equals;
 use crate::ir::{IRComponent, IRSchema, IRShape};
 #[cfg(feature = "sparql")]
-use crate::validator::constraints::BasicSparqlValidator;
-use crate::validator::constraints::NativeValidator;
+use crate::validator::constraints::{BasicSparqlValidator, term_as_sparql};
+use crate::validator::constraints::{NativeValidator, property_values};
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
@@ -11,7 +11,9 @@ use crate::validator::report::ValidationResult;
 use indoc::formatdoc;
 #[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::query::QueryRDF;
-use rudof_rdf::rdf_core::term::{Object, Triple};
+use rudof_rdf::rdf_core::term::Object;
+#[cfg(feature = "sparql")]
+use rudof_rdf::rdf_core::term::Term;
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::collections::HashSet;
 use std::fmt::Debug;
@@ -32,19 +34,7 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Equals {
         let mut results = Vec::new();
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = match S::term_as_subject(fnode) {
-                Ok(s) => s,
-                Err(_) => continue,
-            };
-
-            let iri: S::IRI = self.iri().clone().into();
-
-            let prop_values = store
-                .triples_with_subject_predicate(&subject, &iri)
-                .map_err(ValidationError::new_graph_error::<S>)?
-                .map(|t| t.obj().clone())
-                .collect::<HashSet<_>>();
-
+            let prop_values = property_values(store, fnode, self.iri())?;
             let nodes_set = nodes.iter().collect::<HashSet<_>>();
 
             let fnode_obj = S::term_as_object(fnode)?;
@@ -93,18 +83,22 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Equa
         let mut results = Vec::new();
 
         for (fnode, nodes) in value_nodes.iter() {
-            let query = formatdoc! {"
-                SELECT ?o WHERE {{ {} <{}> ?o }}
-            ", fnode, self.iri()};
-
-            let solutions = store
-                .query_select(&query)
-                .map_err(ValidationError::select_query_error::<S>)?;
-
-            let prop_values: HashSet<S::Term> = solutions
-                .iter()
-                .filter_map(|sol| sol.find_solution("o").cloned())
-                .collect();
+            // blank nodes are not constants in a query, and literals have no properties
+            let prop_values = match term_as_sparql::<S>(fnode) {
+                Some(node) if fnode.is_iri() => {
+                    let query = formatdoc! {"
+                        SELECT ?o WHERE {{ {} <{}> ?o }}
+                    ", node, self.iri()};
+
+                    store
+                        .query_select(&query)
+                        .map_err(ValidationError::select_query_error::<S>)?
+                        .iter()
+                        .filter_map(|sol| sol.find_solution("o").cloned())
+                        .collect()
+                },
+                _ => property_values(store, fnode, self.iri())?,
+            };
 
             let nodes_set = nodes.iter().collect::<HashSet<_>>();
             let fnode_obj = S::term_as_object(fnode)?;
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than.rs b/shacl/src/validator/constraints/core/property_pair/less_than.rs
index 27f7a15..152f811 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than.rs
@@ -3,8 +3,8 @@ use crate::ir::components::LessThan;
 use crate::ir::{IRComponent, IRSchema, IRShape};
 use crate::types::MessageMap;
 #[cfg(feature = "sparql")]
-use crate::validator::constraints::BasicSparqlValidator;
-use crate::validator::constraints::NativeValidator;
+use crate::validator::constraints::{BasicSparqlValidator, term_as_sparql};
+use crate::validator::constraints::{NativeValidator, compare_terms, property_values};
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
@@ -12,7 +12,9 @@ use crate::validator::report::ValidationResult;
 use indoc::formatdoc;
 #[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::query::QueryRDF;
-use rudof_rdf::rdf_core::term::{Object, Triple};
+use rudof_rdf::rdf_core::term::Object;
+#[cfg(feature = "sparql")]
+use rudof_rdf::rdf_core::term::Term;
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
@@ -32,54 +34,29 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThan {
         let component = Object::Iri(component.into());
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = S::term_as_subject(fnode)?;
-            let iri: S::IRI = self.iri().clone().into();
             let fnode_obj = S::term_as_object(fnode)?;
 
-            match store.triples_with_subject_predicate(&subject, &iri) {
-                Ok(triples_iter) => {
-                    // Collect nodes to compare
-                    for triple in triples_iter {
-                        let node1 = S::term_as_object(triple.obj())?;
-                        for value in nodes.iter() {
-                            let node2 = S::term_as_object(value)?;
-                            let msg = match node2.partial_cmp(&node1) {
-                                None => Some(format!(
-                                    "LessThan constraint violated: {node1} is not comparable to {node2}"
-                                )),
-                                Some(ord) if ord.is_ge() => Some(format!(
-                                    "LessThan constraint violated: {node1} is not less than {node2}"
-                                )),
-                                _ => None,
-                            };
+            for other in property_values(store, fnode, self.iri())?.iter() {
+                for value in nodes.iter() {
+                    let msg = match compare_terms::<S>(value, other) {
+                        None => Some(format!(
+                            "LessThan constraint violated: {value} is not comparable to {other}"
+                        )),
+                        Some(ord) if ord.is_ge() => Some(format!(
+                            "LessThan constraint violated: {value} is not less than {other}"
+                        )),
+                        _ => None,
+                    };
 
-                            if let Some(msg) = msg {
-                                let node_obj = S::term_as_object(value).ok();
-                                let vr = ValidationResult::new(
-                                    fnode_obj.clone(),
-                                    component.clone(),
-                                    shape.severity().clone(),
-                                )
-                                .with_message(MessageMap::from(msg))
-                                .with_path(maybe_path.cloned())
-                                .with_source(Some(shape.id().clone()))
-                                .with_value(node_obj);
-                                validation_results.push(vr);
-                            }
-                        }
+                    if let Some(msg) = msg {
+                        let vr = ValidationResult::new(fnode_obj.clone(), component.clone(), shape.severity().clone())
+                            .with_message(MessageMap::from(msg))
+                            .with_path(maybe_path.cloned())
+                            .with_source(Some(shape.id().clone()))
+                            .with_value(S::term_as_object(value).ok());
+                        validation_results.push(vr);
                     }
-                },
-                Err(e) => {
-                    let msg = format!(
-                        "LessThan: Error trying to find triples for subject {subject} and predicate {}: {e}",
-                        self.iri()
-                    );
-                    let vr = ValidationResult::new(fnode_obj, component.clone(), shape.severity().clone())
-                        .with_path(maybe_path.cloned())
-                        .with_message(MessageMap::from(msg))
-                        .with_source(Some(shape.id().clone()));
-                    validation_results.push(vr);
-                },
+                }
             }
         }
 
@@ -109,21 +86,36 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Less
             // emit one violation per (value_node, comparator) pair where
             // value_node is not strictly less than the comparator. COALESCE(?, false)
             // treats incomparable terms (e.g. cross-datatype) as violations.
-            for vn in nodes.iter() {
-                let query = formatdoc! {"
-                    SELECT ?other WHERE {{
-                        {} <{}> ?other .
-                        BIND (COALESCE({} < ?other, false) AS ?lt)
-                        FILTER (!?lt)
-                    }}
-                ", fnode, self.iri(), vn};
+            // blank nodes are not constants in a query, and literals have no properties
+            let others = match term_as_sparql::<S>(fnode) {
+                Some(node) if fnode.is_iri() => {
+                    let query = formatdoc! {"
+                        SELECT ?other WHERE {{ {} <{}> ?other }}
+                    ", node, self.iri()};
 
-                let solutions = store
-                    .query_select(&query)
-                    .map_err(ValidationError::select_query_error::<S>)?;
+                    store
+                        .query_select(&query)
+                        .map_err(ValidationError::select_query_error::<S>)?
+                        .iter()
+                        .filter_map(|sol| sol.find_solution("other").cloned())
+                        .collect()
+                },
+                _ => property_values(store, fnode, self.iri())?,
+            };
 
+            for vn in nodes.iter() {
                 let value = S::term_as_object(vn).ok();
-                for _ in solutions.iter() {
+                for other in others.iter() {
+                    let conforms = match (term_as_sparql::<S>(vn), term_as_sparql::<S>(other)) {
+                        (Some(left), Some(right)) => store
+                            .query_ask(&format!("ASK {{ FILTER(COALESCE({left} < {right}, false)) }}"))
+                            .map_err(ValidationError::ask_query_error::<S>)?,
+                        _ => false,
+                    };
+                    if conforms {
+                        continue;
+                    }
+
                     let msg = format!(
                         "LessThan constraint violated for property {}: value is not strictly less than every comparator",
                         self.iri()
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
index 91c9393..6b3d23d 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
@@ -3,8 +3,8 @@ use crate::ir::components::LessThanOrEquals;
 use crate::ir::{IRComponent, IRSchema, IRShape};
 use crate::types::MessageMap;
 #[cfg(feature = "sparql")]
-use crate::validator::constraints::BasicSparqlValidator;
-use crate::validator::constraints::NativeValidator;
+use crate::validator::constraints::{BasicSparqlValidator, term_as_sparql};
+use crate::validator::constraints::{NativeValidator, compare_terms, property_values};
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
@@ -12,7 +12,9 @@ use crate::validator::report::ValidationResult;
 use indoc::formatdoc;
 #[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::query::QueryRDF;
-use rudof_rdf::rdf_core::term::{Object, Triple};
+use rudof_rdf::rdf_core::term::Object;
+#[cfg(feature = "sparql")]
+use rudof_rdf::rdf_core::term::Term;
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
@@ -32,57 +34,32 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThanOrEquals {
         let component = Object::iri(component.into());
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = S::term_as_subject(fnode)?;
-            let iri: S::IRI = self.iri().clone().into();
             let fnode_obj = S::term_as_object(fnode)?;
 
-            match store.triples_with_subject_predicate(&subject, &iri) {
-                Ok(triples_iter) => {
-                    // Collect nodes to compare
-                    for triple in triples_iter {
-                        let node1 = S::term_as_object(triple.obj())?;
-                        for value in nodes.iter() {
-                            let node2 = S::term_as_object(value)?;
-                            let msg = match node2.partial_cmp(&node1) {
-                                None => Some(format!(
-                                    "LessThanOrEquals constraint violated: {node1} is not comparable to {node2}"
-                                )),
-                                Some(ord) if ord.is_gt() => Some(format!(
-                                    "LessThanOrEquals constraint violated: {node1} is not less or equals than {node2}"
-                                )),
-                                _ => None,
-                            };
+            for other in property_values(store, fnode, self.iri())?.iter() {
+                for value in nodes.iter() {
+                    let msg = match compare_terms::<S>(value, other) {
+                        None => Some(format!(
+                            "LessThanOrEquals constraint violated: {value} is not comparable to {other}"
+                        )),
+                        Some(ord) if ord.is_gt() => Some(format!(
+                            "LessThanOrEquals constraint violated: {value} is not less or equals than {other}"
+                        )),
+                        _ => None,
+                    };
 
-                            if let Some(msg) = msg {
-                                let node_obj = S::term_as_object(value).ok();
-                                let validation_result = ValidationResult::new(
-                                    fnode_obj.clone(),
-                                    component.clone(),
-                                    shape.severity().clone(),
-                                )
-                                .with_message(MessageMap::from(msg))
-                                .with_path(maybe_path.cloned())
-                                .with_value(node_obj)
-                                .with_source(Some(shape.id().clone()));
-                                validation_results.push(validation_result);
-                            }
-                        }
-                    }
-                },
-                Err(e) => {
-                    let msg = format!(
-                        "LessThanOrEquals: Error trying to find triples for subject {subject} and predicate {}: {e}",
-                        self.iri()
-                    );
-                    let validation_result =
-                        ValidationResult::new(fnode_obj, component.clone(), shape.severity().clone())
+                    if let Some(msg) = msg {
+                        let vr = ValidationResult::new(fnode_obj.clone(), component.clone(), shape.severity().clone())
                             .with_message(MessageMap::from(msg))
                             .with_path(maybe_path.cloned())
-                            .with_source(Some(shape.id().clone()));
-                    validation_results.push(validation_result);
-                },
+                            .with_source(Some(shape.id().clone()))
+                            .with_value(S::term_as_object(value).ok());
+                        validation_results.push(vr);
+                    }
+                }
             }
         }
+
         Ok(validation_results)
     }
 }
@@ -106,21 +83,36 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Less
         for (fnode, nodes) in value_nodes.iter() {
             let fnode_obj = S::term_as_object(fnode)?;
 
-            for vn in nodes.iter() {
-                let query = formatdoc! {"
-                    SELECT ?other WHERE {{
-                        {} <{}> ?other .
-                        BIND (COALESCE({} <= ?other, false) AS ?lte)
-                        FILTER (!?lte)
-                    }}
-                ", fnode, self.iri(), vn};
+            // blank nodes are not constants in a query, and literals have no properties
+            let others = match term_as_sparql::<S>(fnode) {
+                Some(node) if fnode.is_iri() => {
+                    let query = formatdoc! {"
+                        SELECT ?other WHERE {{ {} <{}> ?other }}
+                    ", node, self.iri()};
 
-                let solutions = store
-                    .query_select(&query)
-                    .map_err(ValidationError::select_query_error::<S>)?;
+                    store
+                        .query_select(&query)
+                        .map_err(ValidationError::select_query_error::<S>)?
+                        .iter()
+                        .filter_map(|sol| sol.find_solution("other").cloned())
+                        .collect()
+                },
+                _ => property_values(store, fnode, self.iri())?,
+            };
 
+            for vn in nodes.iter() {
                 let value = S::term_as_object(vn).ok();
-                for _ in solutions.iter() {
+                for other in others.iter() {
+                    let conforms = match (term_as_sparql::<S>(vn), term_as_sparql::<S>(other)) {
+                        (Some(left), Some(right)) => store
+                            .query_ask(&format!("ASK {{ FILTER(COALESCE({left} <= {right}, false)) }}"))
+                            .map_err(ValidationError::ask_query_error::<S>)?,
+                        _ => false,
+                    };
+                    if conforms {
+                        continue;
+                    }
+
                     let msg = format!(
                         "LessThanOrEquals constraint violated for property {}: value is not less than or equal to every comparator",
                         self.iri()
diff --git a/shacl/src/validator/constraints/core/value_range/max_exclusive.rs b/shacl/src/validator/constraints/core/value_range/max_exclusive.rs
index bbf0f06..2429ba6 100644
--- a/shacl/src/validator/constraints/core/value_range/max_exclusive.rs
+++ b/shacl/src/validator/constraints/core/value_range/max_exclusive.rs
@@ -1,7 +1,7 @@
 use crate::error::ValidationError;
 use crate::ir::components::MaxExclusive;
 use crate::ir::{IRComponent, IRSchema, IRShape};
-use crate::validator::constraints::{NativeValidator, validate_with};
+use crate::validator::constraints::{NativeValidator, compare_literals, validate_with};
 use crate::validator::engine::Engine;
 use crate::validator::iteration::ValueNodeIteration;
 use crate::validator::nodes::ValueNodes;
@@ -36,7 +36,9 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MaxExclusive {
             value_nodes,
             ValueNodeIteration,
             |n| match S::term_as_sliteral(n) {
-                Ok(lit) => lit.partial_cmp(self.max_exclusive()).map(|o| o.is_ge()).unwrap_or(true),
+                Ok(lit) => compare_literals(&lit, self.max_exclusive())
+                    .map(|o| o.is_ge())
+                    .unwrap_or(true),
                 Err(_) => true,
             },
             &format!("MaxExclusive({}) not satisfied", self.max_exclusive()),
diff --git a/shacl/src/validator/constraints/core/value_range/max_inclusive.rs b/shacl/src/validator/constraints/core/value_range/max_inclusive.rs
index 64ededb..5b454fc 100644
--- a/shacl/src/validator/constraints/core/value_range/max_inclusive.rs
+++ b/shacl/src/validator/constraints/core/value_range/max_inclusive.rs
@@ -1,7 +1,7 @@
 use crate::error::ValidationError;
 use crate::ir::components::MaxInclusive;
 use crate::ir::{IRComponent, IRSchema, IRShape};
-use crate::validator::constraints::{NativeValidator, validate_with};
+use crate::validator::constraints::{NativeValidator, compare_literals, validate_with};
 use crate::validator::engine::Engine;
 use crate::validator::iteration::ValueNodeIteration;
 use crate::validator::nodes::ValueNodes;
@@ -36,7 +36,9 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MaxInclusive {
             value_nodes,
             ValueNodeIteration,
             |n| match S::term_as_sliteral(n) {
-                Ok(lit) => lit.partial_cmp(self.max_inclusive()).map(|o| o.is_gt()).unwrap_or(true),
+                Ok(lit) => compare_literals(&lit, self.max_inclusive())
+                    .map(|o| o.is_gt())
+                    .unwrap_or(true),
                 Err(_) => true,
             },
             &format!("MaxInclusive({}) not satisfied", self.max_inclusive()),
diff --git a/shacl/src/validator/constraints/core/value_range/min_exclusive.rs b/shacl/src/validator/constraints/core/value_range/min_exclusive.rs
index 0a3d6a9..10c6fe5 100644
--- a/shacl/src/validator/constraints/core/value_range/min_exclusive.rs
+++ b/shacl/src/validator/constraints/core/value_range/min_exclusive.rs
@@ -1,7 +1,7 @@
 use crate::error::ValidationError;
 use crate::ir::components::MinExclusive;
 use crate::ir::{IRComponent, IRSchema, IRShape};
-use crate::validator::constraints::{NativeValidator, validate_with};
+use crate::validator::constraints::{NativeValidator, compare_literals, validate_with};
 use crate::validator::engine::Engine;
 use crate::validator::iteration::ValueNodeIteration;
 use crate::validator::nodes::ValueNodes;
@@ -36,7 +36,9 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MinExclusive {
             value_nodes,
             ValueNodeIteration,
             |n| match S::term_as_sliteral(n) {
-                Ok(lit) => lit.partial_cmp(self.min_exclusive()).map(|o| o.is_le()).unwrap_or(true),
+                Ok(lit) => compare_literals(&lit, self.min_exclusive())
+                    .map(|o| o.is_le())
+                    .unwrap_or(true),
                 Err(_) => true,
             },
             &format!("MinExclusive({}) not satisfied", self.min_exclusive()),
diff --git a/shacl/src/validator/constraints/core/value_range/min_inclusive.rs b/shacl/src/validator/constraints/core/value_range/min_inclusive.rs
index 3f9b4fd..a25866c 100644
--- a/shacl/src/validator/constraints/core/value_range/min_inclusive.rs
+++ b/shacl/src/validator/constraints/core/value_range/min_inclusive.rs
@@ -1,7 +1,7 @@
 use crate::error::ValidationError;
 use crate::ir::components::MinInclusive;
 use crate::ir::{IRComponent, IRSchema, IRShape};
-use crate::validator::constraints::{NativeValidator, validate_with};
+use crate::validator::constraints::{NativeValidator, compare_literals, validate_with};
 use crate::validator::engine::Engine;
 use crate::validator::iteration::ValueNodeIteration;
 use crate::validator::nodes::ValueNodes;
@@ -36,7 +36,9 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MinInclusive {
             value_nodes,
             ValueNodeIteration,
             |n| match S::term_as_sliteral(n) {
-                Ok(lit) => lit.partial_cmp(self.min_inclusive()).map(|o| o.is_lt()).unwrap_or(true),
+                Ok(lit) => compare_literals(&lit, self.min_inclusive())
+                    .map(|o| o.is_lt())
+                    .unwrap_or(true),
                 Err(_) => true,
             },
             &format!("MinInclusive({}) not satisfied", self.min_inclusive()),
diff --git a/shacl/src/validator/constraints/mod.rs b/shacl/src/validator/constraints/mod.rs
index b9578a7..a77f856 100644
--- a/shacl/src/validator/constraints/mod.rs
+++ b/shacl/src/validator/constraints/mod.rs
@@ -16,10 +16,14 @@ use crate::validator::iteration::IterationStrategy;
 use crate::validator::iteration::ValueNodeIteration;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
+use rudof_iri::IriS;
 #[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::query::QueryRDF;
 use rudof_rdf::rdf_core::term::Object;
+use rudof_rdf::rdf_core::term::literal::ConcreteLiteral;
 use rudof_rdf::rdf_core::{NeighsRDF, Rdf, SHACLPath};
+use std::cmp::Ordering;
+use std::collections::HashSet;
 use std::fmt::Debug;
 use std::marker::PhantomData;
 
@@ -318,6 +322,31 @@ fn apply_with_focus<S: Rdf, I: IterationStrategy<S>>(
     Ok(results)
 }
 
+/// Returns the values of a property of a node. A node that cannot be a subject has none.
+fn property_values<S: NeighsRDF>(
+    store: &S,
+    node: &S::Term,
+    property: &IriS,
+) -> Result<HashSet<S::Term>, ValidationError> {
+    Ok(store.objects_for_shacl_path(node, &SHACLPath::iri(property.clone()))?)
+}
+
+/// Compares two terms like the `<` operator of SPARQL. Only literals without language tag are comparable.
+fn compare_terms<S: Rdf>(left: &S::Term, right: &S::Term) -> Option<Ordering> {
+    match (S::term_as_object(left), S::term_as_object(right)) {
+        (Ok(Object::Literal(left)), Ok(Object::Literal(right))) => compare_literals(&left, &right),
+        _ => None,
+    }
+}
+
+/// Compares two literals like the `<` operator of SPARQL.
+fn compare_literals(left: &ConcreteLiteral, right: &ConcreteLiteral) -> Option<Ordering> {
+    if left.lang().is_some() || right.lang().is_some() {
+        return None;
+    }
+    left.partial_cmp(right)
+}
+
 /// Validate with a boolean evaluator. If the evaluator returns true, it means there is a violation
 fn validate_with<S: Rdf, I: IterationStrategy<S>>(
     component: &IRComponent,
-- 
2.43.0


From 0aa72e5d7919c212a46637aa02d913f502d0ce2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:26 +0000
Subject: [PATCH 29/99] fix: reading RDF in the TriG and N3 formats

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs  | 113 +++++++++++++++++-
 .../src/rdf_impl/oxigraph/in_memory_error.rs  |  16 +++
 2 files changed, 126 insertions(+), 3 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index 8bd6edd..bb2483c 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -13,7 +13,8 @@ use oxrdf::{
 };
 use oxrdfio::{JsonLdProfileSet, RdfFormat, RdfSerializer};
 use oxrdfxml::RdfXmlParser;
-use oxttl::{NQuadsParser, NTriplesParser, TurtleParser};
+use oxttl::n3::{N3Quad, N3Term};
+use oxttl::{N3Parser, NQuadsParser, NTriplesParser, TriGParser, TurtleParser};
 use prefixmap::{PrefixMapError, prefix_map::*};
 use rudof_iri::IriS;
 use serde::{Serialize, ser::SerializeStruct};
@@ -146,10 +147,10 @@ impl OxigraphInMemory {
                 self.parse_rdfxml(reader, reader_mode)?;
             },
             RDFFormat::TriG => {
-                todo!();
+                self.parse_trig(reader, base, reader_mode)?;
             },
             RDFFormat::N3 => {
-                todo!();
+                self.parse_n3(reader, base, reader_mode)?;
             },
             RDFFormat::NQuads => {
                 self.parse_nquads(reader, reader_mode)?;
@@ -329,6 +330,93 @@ impl OxigraphInMemory {
         Ok(())
     }
 
+    /// Parses TriG data and merges the triples of all its graphs into the graph.
+    ///
+    /// # Parameters
+    ///
+    /// * `reader` - Input stream containing TriG data
+    /// * `base` - Optional base IRI for resolving relative IRIs
+    /// * `reader_mode` - Controls error handling (strict or lax)
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if parsing fails in strict mode.
+    fn parse_trig<R: io::Read>(
+        &mut self,
+        reader: &mut R,
+        base: Option<&str>,
+        reader_mode: &ReaderMode,
+    ) -> Result<(), OxigraphInMemoryError> {
+        let parser = match base {
+            None => TriGParser::new(),
+            Some(iri) => TriGParser::new().with_base_iri(iri)?,
+        };
+        let mut trig_reader = parser.for_reader(reader);
+        let graph = Arc::make_mut(&mut self.graph);
+
+        for quad_result in trig_reader.by_ref() {
+            let quad = match handle_parse_error(quad_result, reader_mode, |e| OxigraphInMemoryError::TriGError {
+                data: "Reading TriG".to_string(),
+                error: e,
+            })? {
+                Some(q) => q,
+                None => continue,
+            };
+            graph.insert(quad.as_ref());
+        }
+
+        let prefixes: HashMap<&str, &str> = trig_reader.prefixes().collect();
+        self.merge_prefixes(prefixes.try_into()?);
+
+        Ok(())
+    }
+
+    /// Parses N3 data and merges it into the graph.
+    ///
+    /// Only the part of N3 that represents RDF triples is supported: formulas and variables are errors.
+    ///
+    /// # Parameters
+    ///
+    /// * `reader` - Input stream containing N3 data
+    /// * `base` - Optional base IRI for resolving relative IRIs
+    /// * `reader_mode` - Controls error handling (strict or lax)
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if parsing fails in strict mode.
+    fn parse_n3<R: io::Read>(
+        &mut self,
+        reader: &mut R,
+        base: Option<&str>,
+        reader_mode: &ReaderMode,
+    ) -> Result<(), OxigraphInMemoryError> {
+        let parser = match base {
+            None => N3Parser::new(),
+            Some(iri) => N3Parser::new().with_base_iri(iri)?,
+        };
+        let mut n3_reader = parser.for_reader(reader);
+        let graph = Arc::make_mut(&mut self.graph);
+
+        for quad_result in n3_reader.by_ref() {
+            let triple_result = quad_result
+                .map_err(|e| e.to_string())
+                .and_then(|quad| n3_quad_to_triple(quad).map_err(|quad| format!("Not an RDF triple: {quad}")));
+            let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::N3Error {
+                data: "Reading N3".to_string(),
+                error: e,
+            })? {
+                Some(t) => t,
+                None => continue,
+            };
+            graph.insert(triple.as_ref());
+        }
+
+        let prefixes: HashMap<&str, &str> = n3_reader.prefixes().collect();
+        self.merge_prefixes(prefixes.try_into()?);
+
+        Ok(())
+    }
+
     /// Parses JSON-LD data and merges it into the graph.
     ///
     /// # Parameters
@@ -1154,6 +1242,25 @@ fn validate_triple_iris(triple: TripleRef) -> Result<(), String> {
     Ok(())
 }
 
+/// Converts an N3 statement to an RDF triple, if it is one.
+fn n3_quad_to_triple(quad: N3Quad) -> Result<OxTriple, Box<N3Quad>> {
+    let subject = match &quad.subject {
+        N3Term::NamedNode(n) => OxSubject::from(n.clone()),
+        N3Term::BlankNode(b) => OxSubject::from(b.clone()),
+        _ => return Err(Box::new(quad)),
+    };
+    let object = match &quad.object {
+        N3Term::NamedNode(n) => OxTerm::from(n.clone()),
+        N3Term::BlankNode(b) => OxTerm::from(b.clone()),
+        N3Term::Literal(l) => OxTerm::from(l.clone()),
+        _ => return Err(Box::new(quad)),
+    };
+    match (&quad.predicate, &quad.graph_name) {
+        (N3Term::NamedNode(p), GraphName::DefaultGraph) => Ok(OxTriple::new(subject, p.clone(), object)),
+        _ => Err(Box::new(quad)),
+    }
+}
+
 fn handle_parse_error<T, E: std::fmt::Display>(
     result: Result<T, E>,
     reader_mode: &ReaderMode,
diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory_error.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory_error.rs
index 2d7b590..cfbf0b4 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory_error.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory_error.rs
@@ -125,6 +125,22 @@ pub enum OxigraphInMemoryError {
     #[error("NQuads error: {error}\nData: {data}")]
     NQuadsError { data: String, error: String },
 
+    /// Error parsing TriG data.
+    ///
+    /// # Fields
+    /// - `data`: The TriG data that failed to parse
+    /// - `error`: Detailed description of the parsing failure
+    #[error("TriG error: {error}\nData: {data}")]
+    TriGError { data: String, error: String },
+
+    /// Error parsing N3 data.
+    ///
+    /// # Fields
+    /// - `data`: The N3 data that failed to parse
+    /// - `error`: Detailed description of the parsing failure
+    #[error("N3 error: {error}\nData: {data}")]
+    N3Error { data: String, error: String },
+
     /// Error parsing JSON-LD data.
     ///
     /// # Fields
-- 
2.43.0


From 4bb9ed4e8477b2ee45e9267d9e8f51048725c890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:26 +0000
Subject: [PATCH 30/99] fix: new blank nodes do not clash with the blank nodes
 of the graph

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index bb2483c..0f998e3 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -55,9 +55,6 @@ pub struct OxigraphInMemory {
     /// Optional base IRI for resolving relative IRIs.
     base: Option<IriS>,
 
-    /// Counter used to generate unique blank node identifiers.
-    bnode_counter: usize,
-
     /// Optional Oxigraph store used for SPARQL evaluation.
     #[cfg(feature = "sparql")]
     store: Option<Store>,
@@ -1060,11 +1057,8 @@ impl BuildRDF for OxigraphInMemory {
     ///
     /// Returns an error if the blank node counter overflows (extremely unlikely).
     fn add_bnode(&mut self) -> Result<Self::BNode, Self::Err> {
-        self.bnode_counter += 1;
-        let bn = u128::try_from(self.bnode_counter).map_err(|_| OxigraphInMemoryError::BlankNodeId {
-            msg: format!("Blank node counter overflow: {}", self.bnode_counter),
-        })?;
-        Ok(OxBlankNode::new_from_unique_id(bn))
+        // A random label, as labels that were or will be added to the graph must not be reused
+        Ok(OxBlankNode::default())
     }
 
     /// Adds a triple to the graph.
@@ -1132,7 +1126,6 @@ impl BuildRDF for OxigraphInMemory {
             graph: Graph::new().into(),
             pm: PrefixMap::new(),
             base: None,
-            bnode_counter: 0,
             #[cfg(feature = "sparql")]
             store: None,
         }
-- 
2.43.0


From 719b42013298a1b6b2e0ed6cfd86b331761b732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:26 +0000
Subject: [PATCH 31/99] fix: RDF/XML and JSON-LD data resolve relative IRIs
 against the base

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index 0f998e3..4cb7428 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -141,7 +141,7 @@ impl OxigraphInMemory {
                 self.parse_ntriples(reader, reader_mode)?;
             },
             RDFFormat::Rdfxml => {
-                self.parse_rdfxml(reader, reader_mode)?;
+                self.parse_rdfxml(reader, base, reader_mode)?;
             },
             RDFFormat::TriG => {
                 self.parse_trig(reader, base, reader_mode)?;
@@ -153,7 +153,7 @@ impl OxigraphInMemory {
                 self.parse_nquads(reader, reader_mode)?;
             },
             RDFFormat::JsonLd => {
-                self.parse_jsonld(reader, reader_mode)?;
+                self.parse_jsonld(reader, base, reader_mode)?;
             },
         }
         if let Some(base) = base {
@@ -265,6 +265,7 @@ impl OxigraphInMemory {
     /// # Parameters
     ///
     /// * `reader` - Input stream containing RDF/XML data
+    /// * `base` - Optional base IRI for resolving relative IRIs
     /// * `reader_mode` - Controls error handling (strict or lax)
     ///
     /// # Errors
@@ -273,9 +274,13 @@ impl OxigraphInMemory {
     fn parse_rdfxml<R: io::Read>(
         &mut self,
         reader: &mut R,
+        base: Option<&str>,
         reader_mode: &ReaderMode,
     ) -> Result<(), OxigraphInMemoryError> {
-        let parser = RdfXmlParser::new();
+        let parser = match base {
+            None => RdfXmlParser::new(),
+            Some(iri) => RdfXmlParser::new().with_base_iri(iri)?,
+        };
         let mut xml_reader = parser.for_reader(reader);
         let graph = Arc::make_mut(&mut self.graph);
 
@@ -419,6 +424,7 @@ impl OxigraphInMemory {
     /// # Parameters
     ///
     /// * `reader` - Input stream containing JSON-LD data
+    /// * `base` - Optional base IRI for resolving relative IRIs
     /// * `reader_mode` - Controls error handling (strict or lax)
     ///
     /// # Errors
@@ -427,9 +433,13 @@ impl OxigraphInMemory {
     fn parse_jsonld<R: io::Read>(
         &mut self,
         reader: &mut R,
+        base: Option<&str>,
         reader_mode: &ReaderMode,
     ) -> Result<(), OxigraphInMemoryError> {
-        let parser = JsonLdParser::new();
+        let parser = match base {
+            None => JsonLdParser::new(),
+            Some(iri) => JsonLdParser::new().with_base_iri(iri)?,
+        };
         let mut jsonld_reader = parser.for_reader(reader);
         let graph = Arc::make_mut(&mut self.graph);
 
-- 
2.43.0


From 13c82b41ce98d092be791c8bee4e815ecba3c57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:26 +0000
Subject: [PATCH 32/99] fix: queries see the changes made to the graph since
 the previous query

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs | 31 +++++++++++++-------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index 4cb7428..2f8ef27 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -188,7 +188,7 @@ impl OxigraphInMemory {
         };
 
         let mut turtle_reader = turtle_parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in turtle_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| {
@@ -243,7 +243,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = NTriplesParser::new();
         let mut nt_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in nt_reader.by_ref() {
             let triple =
@@ -282,7 +282,7 @@ impl OxigraphInMemory {
             Some(iri) => RdfXmlParser::new().with_base_iri(iri)?,
         };
         let mut xml_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in xml_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::RDFXMLError {
@@ -316,7 +316,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = NQuadsParser::new();
         let mut nq_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in nq_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::NQuadsError {
@@ -354,7 +354,7 @@ impl OxigraphInMemory {
             Some(iri) => TriGParser::new().with_base_iri(iri)?,
         };
         let mut trig_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for quad_result in trig_reader.by_ref() {
             let quad = match handle_parse_error(quad_result, reader_mode, |e| OxigraphInMemoryError::TriGError {
@@ -397,7 +397,7 @@ impl OxigraphInMemory {
             Some(iri) => N3Parser::new().with_base_iri(iri)?,
         };
         let mut n3_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for quad_result in n3_reader.by_ref() {
             let triple_result = quad_result
@@ -441,7 +441,7 @@ impl OxigraphInMemory {
             Some(iri) => JsonLdParser::new().with_base_iri(iri)?,
         };
         let mut jsonld_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in jsonld_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::JsonLDError {
@@ -577,7 +577,7 @@ impl OxigraphInMemory {
         O: Into<TermRef<'a>>,
     {
         let triple = TripleRef::new(subj.into(), pred.into(), obj.into());
-        Arc::make_mut(&mut self.graph).insert(triple);
+        self.graph_mut().insert(triple);
         Ok(())
     }
 }
@@ -676,6 +676,15 @@ impl OxigraphInMemory {
         &self.pm
     }
 
+    /// Gives mutable access to the triples, discarding the SPARQL store built from their previous state.
+    fn graph_mut(&mut self) -> &mut Graph {
+        #[cfg(feature = "sparql")]
+        {
+            self.store = None;
+        }
+        Arc::make_mut(&mut self.graph)
+    }
+
     /// Lazily build the embedded SPARQL store from the in-memory graph.
     ///
     /// SPARQL evaluation on the in-memory backend goes through an
@@ -1085,7 +1094,7 @@ impl BuildRDF for OxigraphInMemory {
         O: Into<Self::Term>,
     {
         let triple = OxTriple::new(subj.into(), pred.into(), obj.into());
-        Arc::make_mut(&mut self.graph).insert(&triple);
+        self.graph_mut().insert(&triple);
         Ok(())
     }
 
@@ -1103,7 +1112,7 @@ impl BuildRDF for OxigraphInMemory {
         O: Into<Self::Term>,
     {
         let triple = OxTriple::new(subj.into(), pred.into(), obj.into());
-        Arc::make_mut(&mut self.graph).remove(&triple);
+        self.graph_mut().remove(&triple);
         Ok(())
     }
 
@@ -1121,7 +1130,7 @@ impl BuildRDF for OxigraphInMemory {
         T: Into<Self::Term>,
     {
         let triple = OxTriple::new(node.into(), rdf_type(), type_.into());
-        Arc::make_mut(&mut self.graph).insert(&triple);
+        self.graph_mut().insert(&triple);
         Ok(())
     }
 
-- 
2.43.0


From 7bd3d85fbaf37a088f25b5149da3cd6d69041fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:26 +0000
Subject: [PATCH 33/99] fix: results of CONSTRUCT and DESCRIBE queries are
 written in the requested format

---
 .../api/query/implementations/run_query.rs    |  7 ++----
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs  | 22 ++++++++++++++-----
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/rudof_lib/src/api/query/implementations/run_query.rs b/rudof_lib/src/api/query/implementations/run_query.rs
index a662228..87fddc2 100644
--- a/rudof_lib/src/api/query/implementations/run_query.rs
+++ b/rudof_lib/src/api/query/implementations/run_query.rs
@@ -34,12 +34,12 @@ pub fn run_query(rudof: &mut Rudof, result_query_format: Option<&ResultQueryForm
 
             rudof.query_results = Some(QueryResult::Select(results));
         },
-        QueryType::Construct => {
+        QueryType::Construct | QueryType::Describe => {
             let results = data
                 .unwrap_rdf_mut()
                 .query_construct(&query.serialize(), &result_query_format.into())
                 .map_err(|error| QueryError::FailedExecutingQuery {
-                    query_type: "construct".to_string(),
+                    query_type: query_type.to_string(),
                     error: error.to_string(),
                 })?;
 
@@ -55,9 +55,6 @@ pub fn run_query(rudof: &mut Rudof, result_query_format: Option<&ResultQueryForm
 
             rudof.query_results = Some(QueryResult::Ask(results));
         },
-        QueryType::Describe => {
-            todo!("Implement DESCRIBE query execution")
-        },
     }
 
     Ok(())
diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index 2f8ef27..215de91 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -1355,7 +1355,7 @@ fn cnv_triple(t: &OxTriple) -> TripleRef<'_> {
 
 #[cfg(feature = "sparql")]
 impl QueryRDF for OxigraphInMemory {
-    fn query_construct(&self, query_str: &str, _format: &QueryResultFormat) -> Result<String, OxigraphInMemoryError>
+    fn query_construct(&self, query_str: &str, format: &QueryResultFormat) -> Result<String, OxigraphInMemoryError>
     where
         Self: Sized,
     {
@@ -1377,14 +1377,24 @@ impl QueryRDF for OxigraphInMemory {
                 msg: format!("Error executing query: {e}"),
             })?;
 
-        // Serialize CONSTRUCT output as Turtle. The QueryResultFormat parameter
-        // is forwarded by the trait but Oxigraph's CONSTRUCT path emits triples,
-        // not solutions, so we pin the wire format here.
+        // Oxigraph's CONSTRUCT path emits triples, not solutions, so the formats
+        // for tables of solutions fall back to Turtle.
         match results {
             QueryResults::Graph(triples) => {
-                use oxrdfio::{RdfFormat, RdfSerializer};
+                let rdf_format = match format {
+                    QueryResultFormat::NTriples => RDFFormat::NTriples,
+                    QueryResultFormat::JsonLd => RDFFormat::JsonLd,
+                    QueryResultFormat::RdfXml => RDFFormat::Rdfxml,
+                    QueryResultFormat::TriG => RDFFormat::TriG,
+                    QueryResultFormat::N3 => RDFFormat::N3,
+                    QueryResultFormat::NQuads => RDFFormat::NQuads,
+                    QueryResultFormat::Turtle
+                    | QueryResultFormat::Json
+                    | QueryResultFormat::Csv
+                    | QueryResultFormat::Markdown => RDFFormat::Turtle,
+                };
                 let mut buffer = Vec::new();
-                let mut writer = RdfSerializer::from_format(RdfFormat::Turtle).for_writer(&mut buffer);
+                let mut writer = RdfSerializer::from_format(cnv_rdf_format(&rdf_format)).for_writer(&mut buffer);
                 for triple in triples {
                     let triple = triple.map_err(|e| OxigraphInMemoryError::RunningQueryError {
                         query: query_str.to_string(),
-- 
2.43.0


From 36f367272c43e188c4fd63cf39ca9637cbe1874e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:26 +0000
Subject: [PATCH 34/99] fix: query results in Markdown are a Markdown table

---
 rudof_rdf/src/rdf_core/query/query_solutions.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rudof_rdf/src/rdf_core/query/query_solutions.rs b/rudof_rdf/src/rdf_core/query/query_solutions.rs
index f2eecff..53f76b8 100644
--- a/rudof_rdf/src/rdf_core/query/query_solutions.rs
+++ b/rudof_rdf/src/rdf_core/query/query_solutions.rs
@@ -107,7 +107,14 @@ impl<S: Rdf> QuerySolutions<S> {
         options: &TableOptions,
     ) -> Result<(), RDFError> {
         match output_format {
-            TableFormat::Ascii | TableFormat::Markdown => write_ascii_table(self, writer, options, self.prefixmap()),
+            TableFormat::Ascii => write_ascii_table(self, writer, options, self.prefixmap()),
+            TableFormat::Markdown => {
+                let options = TableOptions {
+                    style: Some(TableStyle::Markdown),
+                    ..*options
+                };
+                write_ascii_table(self, writer, &options, self.prefixmap())
+            },
             /*TableFormat::Json => serde_json::to_writer(writer, &self.solutions)
             .map_err(|e| RDFError::WritingTableError { error: format!("{e}") }),*/
             TableFormat::Csv => write_csv_table(self, writer, self.prefixmap()),
-- 
2.43.0


From 7fcb07bec57862191be0d75dfb5791e913217fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:26 +0000
Subject: [PATCH 35/99] fix: each vocabulary builds its terms from its own base
 IRI

---
 rudof_rdf/src/rdf_core/vocabs/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/vocabs/mod.rs b/rudof_rdf/src/rdf_core/vocabs/mod.rs
index 3cc1bf2..1c1982a 100644
--- a/rudof_rdf/src/rdf_core/vocabs/mod.rs
+++ b/rudof_rdf/src/rdf_core/vocabs/mod.rs
@@ -5,7 +5,8 @@
 //! represent standard properties and datatypes used throughout RDF processing.
 
 use rudof_iri::IriS;
-use std::sync::OnceLock;
+use std::collections::HashMap;
+use std::sync::{Mutex, OnceLock, PoisonError};
 
 mod owl;
 mod rdf;
@@ -52,7 +53,13 @@ pub trait RdfVocabulary {
     const BASE: &'static str;
 
     fn base_iri() -> &'static IriS {
-        static IRI: OnceLock<IriS> = OnceLock::new();
-        IRI.get_or_init(|| IriS::new_unchecked(Self::BASE))
+        // A static in a generic function is shared by all the implementations of the trait
+        static IRIS: OnceLock<Mutex<HashMap<&'static str, &'static IriS>>> = OnceLock::new();
+        let mut iris = IRIS
+            .get_or_init(Default::default)
+            .lock()
+            .unwrap_or_else(PoisonError::into_inner);
+        iris.entry(Self::BASE)
+            .or_insert_with(|| Box::leak(Box::new(IriS::new_unchecked(Self::BASE))))
     }
 }
-- 
2.43.0


From c5e78533a4af7c1c08a96e466308f37b060a4615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:26 +0000
Subject: [PATCH 36/99] fix: loading several data sources without merging keeps
 all of them

---
 .../src/api/data/implementations/load_data.rs   | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/rudof_lib/src/api/data/implementations/load_data.rs b/rudof_lib/src/api/data/implementations/load_data.rs
index 3a0c3a4..34b0f79 100644
--- a/rudof_lib/src/api/data/implementations/load_data.rs
+++ b/rudof_lib/src/api/data/implementations/load_data.rs
@@ -61,7 +61,7 @@ fn init_defaults(
 }
 
 fn load_data_from_specs_pg(rudof: &mut Rudof, data: &[InputSpec], merge: bool) -> Result<()> {
-    for input_spec in data {
+    for (i, input_spec) in data.iter().enumerate() {
         let mut data_reader = input_spec
             .open_read(Some(DataFormat::Pg.mime_type()), "PG data")
             .map_err(|error| {
@@ -70,7 +70,14 @@ fn load_data_from_specs_pg(rudof: &mut Rudof, data: &[InputSpec], merge: bool) -
                 })
             })?;
 
-        read_pg_data(rudof, &mut data_reader, input_spec.source_name().as_str(), merge)?;
+        // the data of the first source replaces the previous data when it is not merged,
+        // the data of the other sources is added to it
+        read_pg_data(
+            rudof,
+            &mut data_reader,
+            input_spec.source_name().as_str(),
+            merge || i > 0,
+        )?;
     }
 
     Ok(())
@@ -85,7 +92,7 @@ fn load_data_from_specs_rdf(
     merge: bool,
     prefixes: Option<&[InputSpec]>,
 ) -> Result<()> {
-    for input_spec in data {
+    for (i, input_spec) in data.iter().enumerate() {
         let mut data_reader = input_spec
             .open_read(Some(data_format.mime_type()), "RDF data")
             .map_err(|error| {
@@ -94,6 +101,8 @@ fn load_data_from_specs_rdf(
                 })
             })?;
 
+        // the data of the first source replaces the previous data when it is not merged,
+        // the data of the other sources is added to it
         read_rdf_data(
             rudof,
             &mut data_reader,
@@ -101,7 +110,7 @@ fn load_data_from_specs_rdf(
             &data_format,
             &base,
             &reader_mode,
-            merge,
+            merge || i > 0,
         )?;
     }
 
-- 
2.43.0


From 52b167ef9357c4df1874e0b03da14a63a4106ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:26 +0000
Subject: [PATCH 37/99] fix: SHACL shapes graphs are written with all their
 components

---
 shacl/src/ir/component.rs      | 152 ++++++++++++++++++++++-----------
 shacl/src/ir/node_shape.rs     |  16 ++++
 shacl/src/ir/property_shape.rs |  47 ++++++++--
 3 files changed, 158 insertions(+), 57 deletions(-)

diff --git a/shacl/src/ir/component.rs b/shacl/src/ir/component.rs
index 8cc2cc9..c58ec7f 100644
--- a/shacl/src/ir/component.rs
+++ b/shacl/src/ir/component.rs
@@ -13,10 +13,10 @@ use crate::ir::{convert_iri_ref, convert_value};
 use crate::types::NodeKind;
 use itertools::Itertools;
 use rudof_iri::IriS;
-use rudof_rdf::rdf_core::BuildRDF;
 use rudof_rdf::rdf_core::term::Object;
 use rudof_rdf::rdf_core::term::literal::ConcreteLiteral;
-use rudof_rdf::rdf_core::vocabs::ShaclVocab;
+use rudof_rdf::rdf_core::vocabs::{RdfVocab, ShaclVocab};
+use rudof_rdf::rdf_core::{BuildRDF, SHACLPath};
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Display, Formatter};
 
@@ -169,9 +169,13 @@ impl IRComponent {
             IRComponent::NodeKind(nk) => {
                 let iri = match nk.node_kind() {
                     NodeKind::Iri => ShaclVocab::sh_iri_ref(),
-                    _ => unimplemented!(),
+                    NodeKind::Lit => ShaclVocab::sh_literal_ref(),
+                    NodeKind::BNode => ShaclVocab::sh_blank_node_ref(),
+                    NodeKind::BNodeOrIri => ShaclVocab::sh_blank_node_or_iri_ref(),
+                    NodeKind::BNodeOrLit => ShaclVocab::sh_blank_node_or_literal_ref(),
+                    NodeKind::IriOrLit => ShaclVocab::sh_iri_or_literal_ref(),
                 };
-                register_iri(iri, ShaclVocab::sh_datatype(), id, graph)
+                register_iri(iri, ShaclVocab::sh_node_kind(), id, graph)
             },
             IRComponent::MinCount(mc) => {
                 register_integer(mc.min_count() as isize, ShaclVocab::sh_min_count(), id, graph)
@@ -200,34 +204,21 @@ impl IRComponent {
                 register_literal(&ConcreteLiteral::str(p.pattern()), ShaclVocab::sh_pattern(), id, graph)
             },
             IRComponent::UniqueLang(ul) => register_boolean(ul.unique_lang(), ShaclVocab::sh_unique_lang(), id, graph),
-            IRComponent::LanguageIn(li) => li.langs().iter().try_for_each(|l| {
-                register_literal(
-                    &ConcreteLiteral::str(&l.to_string()),
-                    ShaclVocab::sh_language_in(),
-                    id,
-                    graph,
-                )
-            }),
+            IRComponent::LanguageIn(li) => {
+                let langs = li.langs().iter().map(|l| {
+                    let literal: RDF::Literal = ConcreteLiteral::str(&l.to_string()).into();
+                    literal.into()
+                });
+                register_list(langs.collect(), ShaclVocab::sh_language_in(), id, graph)
+            },
             IRComponent::Equals(eq) => register_iri(eq.iri(), ShaclVocab::sh_equals(), id, graph),
             IRComponent::Disjoint(d) => register_iri(d.iri(), ShaclVocab::sh_disjoint(), id, graph),
             IRComponent::LessThan(lt) => register_iri(lt.iri(), ShaclVocab::sh_less_than(), id, graph),
             IRComponent::LessThanOrEquals(lte) => {
                 register_iri(lte.iri(), ShaclVocab::sh_less_than_or_equals(), id, graph)
             },
-            IRComponent::Or(or) => {
-                or.shapes().iter().try_for_each(|idx| {
-                    // TODO - Throw error instead of unwrap
-                    let shape = shape_map.get(idx).unwrap();
-                    register_term(&shape.id().clone().into(), ShaclVocab::sh_or(), id, graph)
-                })
-            },
-            IRComponent::And(and) => {
-                and.shapes().iter().try_for_each(|idx| {
-                    // TODO - Throw error instead of unwrap
-                    let shape = shape_map.get(idx).unwrap();
-                    register_term(&shape.id().clone().into(), ShaclVocab::sh_and(), id, graph)
-                })
-            },
+            IRComponent::Or(or) => register_shapes(or.shapes(), ShaclVocab::sh_or(), id, graph, shape_map),
+            IRComponent::And(and) => register_shapes(and.shapes(), ShaclVocab::sh_and(), id, graph, shape_map),
             IRComponent::Not(not) => register_term(
                 // TODO - Throw error instead of unwrap
                 &shape_map.get(not.shape()).unwrap().id().clone().into(),
@@ -235,13 +226,7 @@ impl IRComponent {
                 id,
                 graph,
             ),
-            IRComponent::Xone(xone) => {
-                xone.shapes().iter().try_for_each(|idx| {
-                    // TODO - Throw error instead of unwrap
-                    let shape = shape_map.get(idx).unwrap();
-                    register_term(&shape.id().clone().into(), ShaclVocab::sh_xone(), id, graph)
-                })
-            },
+            IRComponent::Xone(xone) => register_shapes(xone.shapes(), ShaclVocab::sh_xone(), id, graph, shape_map),
             IRComponent::Node(n) => register_term(
                 // TODO - Throw error instead of unwrap
                 &shape_map.get(n.shape()).unwrap().id().clone().into(),
@@ -249,18 +234,12 @@ impl IRComponent {
                 id,
                 graph,
             ),
-            IRComponent::HasValue(hv) => match hv.value() {
-                Object::Iri(iri) => register_iri(iri, ShaclVocab::sh_has_value(), id, graph),
-                Object::Literal(lit) => register_literal(lit, ShaclVocab::sh_has_value(), id, graph),
-                _ => unreachable!(),
+            IRComponent::HasValue(hv) => {
+                register_term(&hv.value().clone().into(), ShaclVocab::sh_has_value(), id, graph)
             },
             IRComponent::In(i) => {
-                // TODO - Review this code
-                i.values().iter().try_for_each(|v| match v {
-                    Object::Iri(iri) => register_iri(iri, ShaclVocab::sh_in(), id, graph),
-                    Object::Literal(lit) => register_literal(lit, ShaclVocab::sh_in(), id, graph),
-                    _ => unreachable!(),
-                })
+                let values = i.values().iter().map(|v| v.clone().into());
+                register_list(values.collect(), ShaclVocab::sh_in(), id, graph)
             },
             IRComponent::QualifiedValueShape(qvs) => {
                 if let Some(value) = qvs.qualified_min_count() {
@@ -288,10 +267,12 @@ impl IRComponent {
             IRComponent::Closed(closed) => {
                 register_boolean(closed.is_closed(), ShaclVocab::sh_closed(), id, graph)?;
 
-                closed
-                    .ignored_properties()
-                    .iter()
-                    .try_for_each(|iri| register_iri(iri, ShaclVocab::sh_ignored_properties(), id, graph))
+                let ignored = closed.ignored_properties();
+                if ignored.is_empty() {
+                    return Ok(());
+                }
+                let ignored = ignored.iter().map(|iri| iri.clone().into());
+                register_list(ignored.collect(), ShaclVocab::sh_ignored_properties(), id, graph)
             },
             IRComponent::Deactivated(deactivated) => {
                 // TODO - Adapt for node expression
@@ -463,10 +444,85 @@ fn register_literal<RDF: BuildRDF>(
     node: &Object,
     graph: &mut RDF,
 ) -> Result<(), IRError> {
-    let literal: RDF::Literal = value.lexical_form().into();
+    let literal: RDF::Literal = value.clone().into();
     register_term(&literal.into(), predicate, node, graph)
 }
 
+fn register_shapes<RDF: BuildRDF>(
+    shapes: &[ShapeLabelIdx],
+    predicate: IriS,
+    node: &Object,
+    graph: &mut RDF,
+    shape_map: &HashMap<ShapeLabelIdx, IRShape>,
+) -> Result<(), IRError> {
+    let ids = shapes
+        .iter()
+        .map(|idx| {
+            let shape = shape_map.get(idx).ok_or(IRError::ShapeNotFound(*idx))?;
+            Ok(shape.id().clone().into())
+        })
+        .collect::<Result<Vec<RDF::Term>, IRError>>()?;
+    register_list(ids, predicate, node, graph)
+}
+
+fn register_list<RDF: BuildRDF>(
+    values: Vec<RDF::Term>,
+    predicate: IriS,
+    node: &Object,
+    graph: &mut RDF,
+) -> Result<(), IRError> {
+    let list = add_list(values, graph)?;
+    register_term(&list, predicate, node, graph)
+}
+
+/// Adds an RDF list to the graph and returns its head
+pub(crate) fn add_list<RDF: BuildRDF>(values: Vec<RDF::Term>, graph: &mut RDF) -> Result<RDF::Term, IRError> {
+    let mut list: RDF::Term = RdfVocab::rdf_nil().into();
+    for value in values.into_iter().rev() {
+        let node = add_bnode(graph)?;
+        graph
+            .add_triple(node.clone(), RdfVocab::rdf_first(), value)
+            .map_err(IRError::add_triple::<RDF>)?;
+        graph
+            .add_triple(node.clone(), RdfVocab::rdf_rest(), list)
+            .map_err(IRError::add_triple::<RDF>)?;
+        list = node.into();
+    }
+    Ok(list)
+}
+
+/// Adds a SHACL property path to the graph and returns the node that represents it
+pub(crate) fn add_path<RDF: BuildRDF>(path: &SHACLPath, graph: &mut RDF) -> Result<RDF::Term, IRError> {
+    let add_paths = |paths: &[SHACLPath], graph: &mut RDF| {
+        let paths = paths
+            .iter()
+            .map(|path| add_path(path, graph))
+            .collect::<Result<Vec<_>, _>>()?;
+        add_list(paths, graph)
+    };
+    let (predicate, value) = match path {
+        SHACLPath::Predicate { pred } => return Ok(pred.clone().into()),
+        SHACLPath::Sequence { paths } => return add_paths(paths, graph),
+        SHACLPath::Alternative { paths } => (ShaclVocab::sh_alternative_path(), add_paths(paths, graph)?),
+        SHACLPath::Inverse { path } => (ShaclVocab::sh_inverse_path(), add_path(path, graph)?),
+        SHACLPath::ZeroOrMore { path } => (ShaclVocab::sh_zero_or_more_path(), add_path(path, graph)?),
+        SHACLPath::OneOrMore { path } => (ShaclVocab::sh_one_or_more_path(), add_path(path, graph)?),
+        SHACLPath::ZeroOrOne { path } => (ShaclVocab::sh_zero_or_one_path(), add_path(path, graph)?),
+    };
+    let node = add_bnode(graph)?;
+    graph
+        .add_triple(node.clone(), predicate, value)
+        .map_err(IRError::add_triple::<RDF>)?;
+    Ok(node.into())
+}
+
+fn add_bnode<RDF: BuildRDF>(graph: &mut RDF) -> Result<RDF::Subject, IRError> {
+    let node = graph
+        .add_bnode()
+        .map_err(|e| IRError::from_rdf_err::<RDF>("add blank node", e))?;
+    Ok(node.into())
+}
+
 fn register_iri<RDF: BuildRDF>(value: &IriS, predicate: IriS, node: &Object, graph: &mut RDF) -> Result<(), IRError> {
     register_term(&value.clone().into(), predicate, node, graph)
 }
diff --git a/shacl/src/ir/node_shape.rs b/shacl/src/ir/node_shape.rs
index f97cd7c..6eaece1 100644
--- a/shacl/src/ir/node_shape.rs
+++ b/shacl/src/ir/node_shape.rs
@@ -234,6 +234,22 @@ impl IRNodeShape {
                 .map_err(IRError::add_triple::<RDF>)?;
         }
 
+        if let Some(message) = &self.message {
+            message.iter_literals().try_for_each(|lit| {
+                graph
+                    .add_triple::<_, _, RDF::Literal>(id.clone(), ShaclVocab::sh_message(), lit.into())
+                    .map_err(IRError::add_triple::<RDF>)
+            })?;
+        }
+
+        if self.deactivated {
+            let lit: RDF::Literal = true.into();
+
+            graph
+                .add_triple(id.clone(), ShaclVocab::sh_deactivated(), lit)
+                .map_err(IRError::add_triple::<RDF>)?;
+        }
+
         if let Some(severity) = &self.severity {
             graph
                 .add_triple::<_, _, IriS>(id.clone(), ShaclVocab::sh_severity(), severity.clone().into())
diff --git a/shacl/src/ir/property_shape.rs b/shacl/src/ir/property_shape.rs
index cbdb641..2bb4632 100644
--- a/shacl/src/ir/property_shape.rs
+++ b/shacl/src/ir/property_shape.rs
@@ -1,5 +1,5 @@
 use crate::ast::{ASTPropertyShape, ASTSchema};
-use crate::ir::component::IRComponent;
+use crate::ir::component::{IRComponent, add_path};
 use crate::ir::dg::{DependencyGraph, PosNeg};
 use crate::ir::error::IRError;
 use crate::ir::schema::IRSchema;
@@ -252,13 +252,10 @@ impl IRPropertyShape {
                 .map_err(IRError::add_triple::<RDF>)?;
         }
 
-        if let SHACLPath::Predicate { pred } = &self.path {
-            graph
-                .add_triple(id.clone(), ShaclVocab::sh_path(), pred.clone())
-                .map_err(IRError::add_triple::<RDF>)?;
-        } else {
-            unimplemented!()
-        }
+        let path = add_path(&self.path, graph)?;
+        graph
+            .add_triple(id.clone(), ShaclVocab::sh_path(), path)
+            .map_err(IRError::add_triple::<RDF>)?;
 
         self.components
             .iter()
@@ -269,8 +266,40 @@ impl IRPropertyShape {
             .try_for_each(|target| target.register(&self.id, graph))
             .map_err(|e| IRError::from_rdf_err::<RDF>("add target to graph", e))?;
 
+        self.property_shapes.iter().try_for_each(|idx| {
+            let ps = shapes_map.get(idx).ok_or(IRError::ShapeNotFound(*idx))?;
+
+            graph
+                .add_triple(id.clone(), ShaclVocab::sh_property(), ps.id().clone())
+                .map_err(IRError::add_triple::<RDF>)
+        })?;
+
+        if let Some(reifier_info) = &self.reifier_info {
+            let required: RDF::Literal = reifier_info.reification_required().into();
+
+            graph
+                .add_triple(id.clone(), ShaclVocab::sh_reification_required(), required)
+                .map_err(IRError::add_triple::<RDF>)?;
+
+            reifier_info.reifier_shape().iter().try_for_each(|idx| {
+                let shape = shapes_map.get(idx).ok_or(IRError::ShapeNotFound(*idx))?;
+
+                graph
+                    .add_triple(id.clone(), ShaclVocab::sh_reifier_shape(), shape.id().clone())
+                    .map_err(IRError::add_triple::<RDF>)
+            })?;
+        }
+
+        if let Some(message) = &self.message {
+            message.iter_literals().try_for_each(|lit| {
+                graph
+                    .add_triple::<_, _, RDF::Literal>(id.clone(), ShaclVocab::sh_message(), lit.into())
+                    .map_err(IRError::add_triple::<RDF>)
+            })?;
+        }
+
         if self.deactivated {
-            let lit: RDF::Literal = "true".to_string().into();
+            let lit: RDF::Literal = true.into();
 
             graph
                 .add_triple(id.clone(), ShaclVocab::sh_deactivated(), lit)
-- 
2.43.0


From 2ff471330137791c5cc6068508ed8bc54d752c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:23 +0000
Subject: [PATCH 38/99] fix: a prefixed name denotes the concatenation of
 namespace and local name

---
 prefixmap/src/prefix_map.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prefixmap/src/prefix_map.rs b/prefixmap/src/prefix_map.rs
index 42d3cf2..ef71cd9 100644
--- a/prefixmap/src/prefix_map.rs
+++ b/prefixmap/src/prefix_map.rs
@@ -511,7 +511,7 @@ impl PrefixMap {
     /// # Ok::<(), PrefixMapError>(())
     /// ```
     pub fn resolve(&self, str: &str) -> Result<IriS, PrefixMapError> {
-        match str.rsplit_once(':') {
+        match str.split_once(':') {
             Some((prefix, local)) => Ok(self.resolve_prefix_local(prefix, local)?),
             None => Ok(IriS::from_str(str)?),
         }
@@ -566,8 +566,8 @@ impl PrefixMap {
                 if local.is_empty() {
                     return Ok(iri.clone());
                 }
-                let new_iri = iri.extend(local.as_str())?;
-                Ok(new_iri)
+                // The IRI of a prefixed name is the concatenation of both parts
+                Ok(IriS::new(&format!("{iri}{local}"))?)
             },
             None => Err(PrefixMapError::PrefixNotFound {
                 prefix,
-- 
2.43.0


From cd115facbc0f1d4988e24cd0eefcaf93dfe23a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:31 +0000
Subject: [PATCH 39/99] fix: ShExC local names with escapes, non-ASCII first
 characters and dots

---
 shex_ast/src/compact/shex_grammar.rs | 72 ++++++++++------------------
 1 file changed, 24 insertions(+), 48 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index f830f72..3756a16 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -1872,30 +1872,9 @@ fn is_pn_chars_u_digit(c: char) -> bool {
     is_digit(c) || is_pn_chars_u(c)
 }
 
-fn is_pn_chars_or_dot(c: char) -> bool {
-    c == '.' || is_pn_chars(c)
-}
-
-fn blank_node_label2(src: Span) -> IRes<()> {
-    match blank_node_label3(src) {
-        Ok((left, m)) => {
-            // if last is a '.', remove that
-            if m.ends_with('.') {
-                // TODO!!: Original parser had this:
-                // But I need to see how to remove the last character of left...
-                // Ok(((&src[m.len() - 1..]), ()))
-                tracing::error!("This code is pending review when the last is a '.' {left}");
-                Ok((left, ()))
-            } else {
-                Ok((left, ()))
-            }
-        },
-        Err(e) => Err(e),
-    }
-}
-
-fn blank_node_label3(i: Span) -> IRes<Span> {
-    take_while(is_pn_chars_or_dot)(i)
+/// Dots can appear inside a label but not at the end
+fn blank_node_label2(i: Span) -> IRes<Span> {
+    recognize(many0(recognize((many0(char_dot), take_while1(is_pn_chars))))).parse(i)
 }
 
 /// `[19t] <INTEGER> ::= [+-]? [0-9]+`
@@ -1966,39 +1945,36 @@ fn digits(i: Span) -> IRes<i128> {
 fn pname_ln(i: Span) -> IRes<IriRef> {
     // This code is different here: https://github.com/vandenoever/rome/blob/047cf54def2aaac75ac4b9adbef08a9d010689bd/src/io/turtle/grammar.rs#L293
     let (i, (prefix, local)) = (pname_ns, pn_local).parse(i)?;
-    Ok((i, IriRef::prefixed(*prefix.fragment(), local)))
+    Ok((i, IriRef::prefixed(prefix.fragment().to_string(), local)))
 }
 
-/// `[77] <PN_LOCAL> ::= (PN_CHARS_U | ":" | [0-9] | PLX) (PN_CHARS | "." | ":" | PLX)`
-fn pn_local(i: Span<'_>) -> IRes<'_, &str> {
-    let (i, cs) = recognize((alt((one_if(is_pn_local_start), plx)), pn_local2)).parse(i)?;
-    Ok((i, cs.fragment()))
+/// `[77] <PN_LOCAL> ::= (PN_CHARS_U | ":" | [0-9] | PLX) ((PN_CHARS | "." | ":" | PLX)* (PN_CHARS | ":" | PLX))?`
+fn pn_local(i: Span<'_>) -> IRes<'_, String> {
+    let (i, cs) = recognize((alt((one_if(is_pn_local_start), plx)), many0(pn_local_rest))).parse(i)?;
+    Ok((i, unescape_pn_local(cs.fragment())))
 }
 
 fn is_pn_local_start(c: char) -> bool {
     c == ':' || is_digit(c) || is_pn_chars_u(c)
 }
 
-fn pn_local2(src: Span) -> IRes<()> {
-    match pn_local3(src) {
-        Ok((left, m)) => {
-            // if last is a '.', remove that
-            if m.ends_with('.') {
-                // TODO!!: Original parser had this:
-                // But I need to see how to remove the last character of left...
-                // Ok(((&src[m.len() - 1..]), ()))
-                tracing::error!("This code is pending review when the last is a '.' {left}");
-                Ok((left, ()))
-            } else {
-                Ok((left, ()))
-            }
-        },
-        Err(e) => Err(e),
-    }
+/// Dots can appear inside a local name but not at the end
+fn pn_local_rest(i: Span) -> IRes<Span> {
+    recognize((many0(char_dot), alt((pn_chars_colon, plx)))).parse(i)
 }
 
-fn pn_local3(i: Span) -> IRes<Span> {
-    recognize(many0(alt((pn_chars_colon, plx, char_dot)))).parse(i)
+/// Removes the `\\` of the reserved characters that are escaped in a local name
+fn unescape_pn_local(local: &str) -> String {
+    let mut result = String::with_capacity(local.len());
+    let mut chars = local.chars();
+    while let Some(c) = chars.next() {
+        if c == '\\' {
+            result.extend(chars.next());
+        } else {
+            result.push(c);
+        }
+    }
+    result
 }
 
 fn pn_chars_colon(i: Span) -> IRes<Span> {
@@ -2243,7 +2219,7 @@ fn one_if<'a, F: Fn(char) -> bool>(f: F) -> impl Fn(Span<'a>) -> IRes<'a, Span<'
     move |i| {
         if let Some(c) = i.chars().next() {
             if f(c) {
-                Ok(i.take_split(1))
+                Ok(i.take_split(c.len_utf8()))
             } else {
                 Err(Err::Error(error_position!(i, ErrorKind::OneOf)))
             }
-- 
2.43.0


From 4c503ba076fa9441f143a23c4c42158c0bf453f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:31 +0000
Subject: [PATCH 40/99] fix: ShExC BASE and PREFIX declarations resolve
 relative IRIs

---
 shex_ast/src/compact/shex_parser.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/shex_ast/src/compact/shex_parser.rs b/shex_ast/src/compact/shex_parser.rs
index 5d86286..7277b21 100644
--- a/shex_ast/src/compact/shex_parser.rs
+++ b/shex_ast/src/compact/shex_parser.rs
@@ -6,6 +6,7 @@ use crate::shex_statement;
 use crate::tws0;
 use nom::Err;
 use prefixmap::DerefIri;
+use prefixmap::error::DerefError;
 use rudof_iri::IriS;
 use std::fs;
 use std::io;
@@ -23,6 +24,14 @@ pub struct ShExParser<'a> {
     // done: bool,
 }
 
+/// The IRIs of declarations can be relative to the base in scope
+fn resolve_with_base(iri: IriS, base: Option<&IriS>) -> Result<IriS> {
+    match base {
+        Some(base) => Ok(base.resolve(iri).map_err(DerefError::from)?),
+        None => Ok(iri),
+    }
+}
+
 impl ShExParser<'_> {
     /// Parse a ShEx schema that uses [ShEx compact syntax](https://shex.io/shex-semantics/index.html#shexc)
     ///
@@ -36,9 +45,11 @@ impl ShExParser<'_> {
         for s in parser.shex_statement_iterator.by_ref() {
             match s? {
                 ShExStatement::BaseDecl { iri } => {
+                    let iri = resolve_with_base(iri, schema.base().as_ref())?;
                     schema = schema.with_base(Some(iri));
                 },
                 ShExStatement::PrefixDecl { alias, iri } => {
+                    let iri = resolve_with_base(iri, schema.base().as_ref())?;
                     schema.add_prefix(alias, &iri);
                 },
                 ShExStatement::StartDecl { shape_expr } => {
-- 
2.43.0


From 058558fda9a784d75955c2643bf2211611ea2c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:31 +0000
Subject: [PATCH 41/99] fix: resolve IRI stems and exclusions of ShExC value
 sets where they are parsed

---
 shex_ast/src/ast/iri_exclusion.rs       | 12 +++++++++++-
 shex_ast/src/ast/iri_ref_or_wildcard.rs | 12 +++++++++++-
 shex_ast/src/ast/value_set_value.rs     |  8 +++++---
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/shex_ast/src/ast/iri_exclusion.rs b/shex_ast/src/ast/iri_exclusion.rs
index 45d603e..e33010b 100644
--- a/shex_ast/src/ast/iri_exclusion.rs
+++ b/shex_ast/src/ast/iri_exclusion.rs
@@ -1,4 +1,5 @@
-use prefixmap::IriRef;
+use prefixmap::{DerefError, DerefIri, IriRef, PrefixMap};
+use rudof_iri::IriS;
 use serde::ser::SerializeMap;
 use serde::{Deserialize, Serialize, Serializer};
 use std::fmt::Display;
@@ -10,6 +11,15 @@ pub enum IriExclusion {
     IriStem(IriRef),
 }
 
+impl DerefIri for IriExclusion {
+    fn deref_iri(self, base: Option<&IriS>, prefixmap: Option<&PrefixMap>) -> Result<Self, DerefError> {
+        match self {
+            IriExclusion::Iri(iri) => Ok(IriExclusion::Iri(iri.deref_iri(base, prefixmap)?)),
+            IriExclusion::IriStem(stem) => Ok(IriExclusion::IriStem(stem.deref_iri(base, prefixmap)?)),
+        }
+    }
+}
+
 impl Serialize for IriExclusion {
     fn serialize<S>(&self, serializer: S) -> result::Result<S::Ok, S::Error>
     where
diff --git a/shex_ast/src/ast/iri_ref_or_wildcard.rs b/shex_ast/src/ast/iri_ref_or_wildcard.rs
index 16773bb..b794f9a 100644
--- a/shex_ast/src/ast/iri_ref_or_wildcard.rs
+++ b/shex_ast/src/ast/iri_ref_or_wildcard.rs
@@ -1,4 +1,5 @@
-use prefixmap::IriRef;
+use prefixmap::{DerefError, DerefIri, IriRef, PrefixMap};
+use rudof_iri::IriS;
 use rudof_iri::error::IriSError;
 use serde::ser::SerializeMap;
 use serde::{Serialize, Serializer};
@@ -10,6 +11,15 @@ pub enum IriRefOrWildcard {
     Wildcard,
 }
 
+impl DerefIri for IriRefOrWildcard {
+    fn deref_iri(self, base: Option<&IriS>, prefixmap: Option<&PrefixMap>) -> Result<Self, DerefError> {
+        match self {
+            IriRefOrWildcard::IriRef(iri) => Ok(IriRefOrWildcard::IriRef(iri.deref_iri(base, prefixmap)?)),
+            IriRefOrWildcard::Wildcard => Ok(IriRefOrWildcard::Wildcard),
+        }
+    }
+}
+
 impl FromStr for IriRefOrWildcard {
     type Err = IriSError;
 
diff --git a/shex_ast/src/ast/value_set_value.rs b/shex_ast/src/ast/value_set_value.rs
index 08cd4a4..2b628d2 100644
--- a/shex_ast/src/ast/value_set_value.rs
+++ b/shex_ast/src/ast/value_set_value.rs
@@ -110,10 +110,12 @@ impl DerefIri for ValueSetValue {
                 language_tag: language_tag.clone(),
             }),
             ValueSetValue::LanguageStem { stem } => Ok(ValueSetValue::LanguageStem { stem: stem.clone() }),
-            ValueSetValue::IriStem { stem } => Ok(ValueSetValue::IriStem { stem: stem.clone() }),
+            ValueSetValue::IriStem { stem } => Ok(ValueSetValue::IriStem {
+                stem: stem.deref_iri(base, prefixmap)?,
+            }),
             ValueSetValue::IriStemRange { stem, exclusions } => Ok(ValueSetValue::IriStemRange {
-                stem: stem.clone(),
-                exclusions: exclusions.clone(),
+                stem: stem.deref_iri(base, prefixmap)?,
+                exclusions: exclusions.deref_iri(base, prefixmap)?,
             }),
             ValueSetValue::LanguageStemRange { stem, exclusions } => Ok(ValueSetValue::LanguageStemRange {
                 stem: stem.clone(),
-- 
2.43.0


From 8ab318422d33ae193c5cc7ad599e2c741f98a3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:01 +0000
Subject: [PATCH 42/99] fix: run SPARQL queries as they were written, not as
 their algebra prints

---
 .../api/query/implementations/run_query.rs    | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/rudof_lib/src/api/query/implementations/run_query.rs b/rudof_lib/src/api/query/implementations/run_query.rs
index 87fddc2..74ae9c9 100644
--- a/rudof_lib/src/api/query/implementations/run_query.rs
+++ b/rudof_lib/src/api/query/implementations/run_query.rs
@@ -24,20 +24,19 @@ pub fn run_query(rudof: &mut Rudof, result_query_format: Option<&ResultQueryForm
 
     match query_type {
         QueryType::Select => {
-            let results = data
-                .unwrap_rdf_mut()
-                .query_select(&query.serialize())
-                .map_err(|error| QueryError::FailedExecutingQuery {
+            let results = data.unwrap_rdf_mut().query_select(query.source()).map_err(|error| {
+                QueryError::FailedExecutingQuery {
                     query_type: "select".to_string(),
                     error: error.to_string(),
-                })?;
+                }
+            })?;
 
             rudof.query_results = Some(QueryResult::Select(results));
         },
         QueryType::Construct | QueryType::Describe => {
             let results = data
                 .unwrap_rdf_mut()
-                .query_construct(&query.serialize(), &result_query_format.into())
+                .query_construct(query.source(), &result_query_format.into())
                 .map_err(|error| QueryError::FailedExecutingQuery {
                     query_type: query_type.to_string(),
                     error: error.to_string(),
@@ -46,12 +45,13 @@ pub fn run_query(rudof: &mut Rudof, result_query_format: Option<&ResultQueryForm
             rudof.query_results = Some(QueryResult::Construct(results));
         },
         QueryType::Ask => {
-            let results = data.unwrap_rdf_mut().query_ask(&query.serialize()).map_err(|error| {
-                QueryError::FailedExecutingQuery {
-                    query_type: "ask".to_string(),
-                    error: error.to_string(),
-                }
-            })?;
+            let results =
+                data.unwrap_rdf_mut()
+                    .query_ask(query.source())
+                    .map_err(|error| QueryError::FailedExecutingQuery {
+                        query_type: "ask".to_string(),
+                        error: error.to_string(),
+                    })?;
 
             rudof.query_results = Some(QueryResult::Ask(results));
         },
-- 
2.43.0


From 1d32329a4719080999f33f6a574de2fc0a1f97c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:31 +0000
Subject: [PATCH 43/99] fix: keep the labels and the content of each
 alternative of a property graph type together

A type which is one of several others accepted the labels of one of them
with the content of another one.
---
 pgschema/src/formal_base_type.rs    | 206 +++++++++-------------------
 pgschema/src/property_value_spec.rs |   4 +-
 2 files changed, 64 insertions(+), 146 deletions(-)

diff --git a/pgschema/src/formal_base_type.rs b/pgschema/src/formal_base_type.rs
index 3f0ae5c..11f03f6 100644
--- a/pgschema/src/formal_base_type.rs
+++ b/pgschema/src/formal_base_type.rs
@@ -7,13 +7,17 @@ use crate::{
     type_name::{LabelName, Name},
 };
 use either::Either;
+use itertools::Itertools;
 use std::{collections::HashSet, fmt::Display};
 
+/// Set of alternatives, each of them a combination of labels and the content that goes with it.
+///
+/// The labels and the content of an alternative belong together: a node or edge conforms when the same alternative
+/// describes both.
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct FormalBaseType {
-    labels: HashSet<LabelSet>, // Set of label sets, where each set represents a combination of labels that can be present
+    alternatives: HashSet<(LabelSet, RecordType)>,
     open_labels: bool,
-    content: HashSet<RecordType>, // Define the structure of FormalBaseType as needed
 }
 
 impl Default for FormalBaseType {
@@ -23,12 +27,11 @@ impl Default for FormalBaseType {
 }
 
 impl FormalBaseType {
-    /// Creates a new FormalBaseType with no labels or content.
+    /// Creates a new FormalBaseType without alternatives.
     pub fn new() -> Self {
         FormalBaseType {
-            labels: HashSet::new(),
+            alternatives: HashSet::new(),
             open_labels: false,
-            content: HashSet::new(),
         }
     }
 
@@ -37,38 +40,41 @@ impl FormalBaseType {
         self
     }
 
-    /// Sets the labels for the FormalBaseType.
+    /// Adds an alternative with no content for each set of labels.
     pub fn with_labels(mut self, label_sets: impl IntoIterator<Item = impl IntoIterator<Item = LabelName>>) -> Self {
         for labels in label_sets {
-            let label_set = LabelSet::from(labels);
-            self.labels.insert(label_set);
+            self.alternatives.insert((LabelSet::from(labels), RecordType::empty()));
         }
         self
     }
 
-    /// Adds a RecordType to the content of the FormalBaseType.
-    pub fn with_record_type(mut self, record_type: RecordType) -> Self {
-        self.content.insert(record_type);
-        self
+    /// Adds a RecordType to the content of every alternative.
+    pub fn with_record_type(self, record_type: RecordType) -> Self {
+        self.with_content(HashSet::from([record_type]))
     }
 
-    /// Sets the content of the FormalBaseType.
-    pub fn with_content(mut self, content: HashSet<RecordType>) -> Self {
-        self.content = content;
-        self
+    /// Adds some content, which is one of the given RecordTypes, to every alternative.
+    pub fn with_content(self, content: HashSet<RecordType>) -> Self {
+        let content_type = FormalBaseType {
+            alternatives: content.into_iter().map(|record| (LabelSet::new(), record)).collect(),
+            open_labels: false,
+        };
+        self.combine(&content_type)
     }
 
     /// Checks if the FormalBaseType conforms to the given labels and content.
     pub fn conforms(&self, labels: &LabelSet, content: &Record) -> Either<Vec<PgsError>, Vec<Evidence>> {
-        if !self.labels.contains(labels) {
+        let candidates: Vec<_> = self
+            .alternatives
+            .iter()
+            .filter(|(label_set, _)| label_set == labels)
+            .map(|(_, record_type)| record_type)
+            .collect();
+        if candidates.is_empty() {
             tracing::trace!(
                 "Labels do not conform: record labels = [{}], expected labels = [{}]",
                 labels.iter().cloned().collect::<Vec<_>>().join(", "),
-                self.labels
-                    .iter()
-                    .map(|lblset| lblset.to_string())
-                    .collect::<Vec<_>>()
-                    .join(", ")
+                show_sorted(self.label_sets(), ", ")
             );
             let expected_labels = format!(
                 "[{}]",
@@ -84,7 +90,7 @@ impl FormalBaseType {
             }]);
         }
 
-        for record_type in &self.content {
+        for record_type in &candidates {
             if record_type.conforms(content).is_right() {
                 return Either::Right(vec![Evidence::LabelsContentConforms {
                     labels: labels.iter().cloned().collect::<Vec<_>>().join(", ").to_string(),
@@ -95,63 +101,50 @@ impl FormalBaseType {
         }
         Either::Left(vec![PgsError::RecordContentFails {
             record: format!("{}", content),
-            type_content: self
-                .content
-                .iter()
-                .map(|rt| rt.to_string())
-                .collect::<Vec<_>>()
-                .join("\n")
-                .to_string(),
+            type_content: show_sorted(candidates, "\n"),
         }])
     }
 
     /// Creates a FormalBaseType from a single label.
     pub fn from_label(label: Name) -> Self {
-        FormalBaseType::new()
-            .with_labels(vec![vec![label]])
-            .with_content(HashSet::from([RecordType::empty()]))
+        FormalBaseType::new().with_labels(vec![vec![label]])
     }
 
-    /*pub fn add_label(&mut self, label: Name) {
-        self.labels.insert(label);
-    }*/
-
+    /// Adds an alternative with the given content and no labels.
     pub fn add_content(&mut self, record_type: RecordType) {
-        self.content.insert(record_type);
+        self.alternatives.insert((LabelSet::new(), record_type));
     }
 
     pub fn union(&self, other: &FormalBaseType) -> Self {
-        let mut result = FormalBaseType::new();
-        result.labels.extend(self.labels.iter().cloned());
-        result.labels.extend(other.labels.iter().cloned());
-        result.content.extend(self.content.iter().cloned());
-        result.content.extend(other.content.iter().cloned());
-        result
+        FormalBaseType {
+            alternatives: self.alternatives.union(&other.alternatives).cloned().collect(),
+            open_labels: combine_openness(self.open_labels, other.open_labels),
+        }
     }
 
+    /// Combines each alternative of one type with each alternative of the other one, following the PGSchema paper: the
+    /// result has the labels of both and the content of both.
     pub fn combine(&self, other: &FormalBaseType) -> Self {
-        // The following line was using a simple union following the PGSchema paper,
-        // but it doesn't capture the intended semantics of combining labels.
-        // Instead, we should combine the label sets in a way that reflects the possible combinations of labels from both types.
-        // let labels: HashSet<_> = self.labels.union(&other.labels).cloned().collect();
-        let labels = combine_label_sets(&self.labels, &other.labels);
-
-        let content = combine_set_records(&self.content, &other.content);
+        let mut alternatives = HashSet::new();
+        for (labels1, record1) in &self.alternatives {
+            for (labels2, record2) in &other.alternatives {
+                let labels = LabelSet::from(labels1.iter().chain(labels2.iter()).cloned());
+                alternatives.insert((labels, record1.combine(record2)));
+            }
+        }
         FormalBaseType {
-            labels,
+            alternatives,
             open_labels: combine_openness(self.open_labels, other.open_labels),
-            content,
         }
     }
 
+    /// The type of nodes and edges which have no labels and no content.
     pub fn type_0() -> FormalBaseType {
-        let mut content = HashSet::new();
-        content.insert(RecordType::empty());
-        FormalBaseType {
-            labels: HashSet::new(),
-            open_labels: false,
-            content,
-        }
+        FormalBaseType::new().with_labels([[] as [LabelName; 0]])
+    }
+
+    fn label_sets(&self) -> HashSet<&LabelSet> {
+        self.alternatives.iter().map(|(labels, _)| labels).collect()
     }
 }
 
@@ -159,94 +152,19 @@ fn combine_openness(open1: bool, open2: bool) -> bool {
     open1 || open2
 }
 
-fn combine_label_sets(set1: &HashSet<LabelSet>, set2: &HashSet<LabelSet>) -> HashSet<LabelSet> {
-    if set1.is_empty() {
-        return set2.clone();
-    }
-    if set2.is_empty() {
-        return set1.clone();
-    }
-    let mut combined: HashSet<LabelSet> = HashSet::new();
-    for lblset1 in set1 {
-        for lblset2 in set2 {
-            let mut combined_labels = lblset1.labels().clone();
-            combined_labels.extend(lblset2.labels().iter().cloned());
-            combined.insert(LabelSet::from(combined_labels));
-        }
-    }
-    combined
-}
-
-fn combine_set_records(set1: &HashSet<RecordType>, set2: &HashSet<RecordType>) -> HashSet<RecordType> {
-    if set1.is_empty() {
-        return set2.clone();
-    }
-    if set2.is_empty() {
-        return set1.clone();
-    }
-    let mut combined: HashSet<RecordType> = HashSet::new();
-    for record1 in set1 {
-        for record2 in set2 {
-            let combined_record = record1.combine(record2);
-            combined.insert(combined_record);
-        }
-    }
-    combined
+fn show_sorted<T: Display>(items: impl IntoIterator<Item = T>, separator: &str) -> String {
+    items.into_iter().map(|item| item.to_string()).sorted().join(separator)
 }
 
 impl Display for FormalBaseType {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        match self {
-            FormalBaseType { labels, content, .. } if labels.is_empty() && content.is_empty() => write!(f, "Empty"),
-            FormalBaseType { labels, content, .. } if !labels.is_empty() && content.is_empty() => {
-                write!(
-                    f,
-                    "Labels([{}])",
-                    labels
-                        .iter()
-                        .map(|lblset| lblset.to_string())
-                        .collect::<Vec<_>>()
-                        .join(", ")
-                )
-            },
-            FormalBaseType { labels, content, .. } if labels.is_empty() && !content.is_empty() => {
-                write!(
-                    f,
-                    "Content({})",
-                    content.iter().map(|c| format!("{}", c)).collect::<Vec<_>>().join(", ")
-                )
-            },
-            FormalBaseType { labels, content, .. } => {
-                let spec = if !labels.is_empty() {
-                    format!(
-                        "Labels({})",
-                        labels
-                            .iter()
-                            .map(|lblset| lblset.to_string())
-                            .collect::<Vec<_>>()
-                            .join(", ")
-                    )
-                } else {
-                    String::new()
-                };
-                let value_spec = if !content.is_empty() {
-                    format!(
-                        "Content({})",
-                        content.iter().map(|c| format!("{}", c)).collect::<Vec<_>>().join(", ")
-                    )
-                } else {
-                    String::new()
-                };
-                if !spec.is_empty() && !value_spec.is_empty() {
-                    write!(f, "{}, {}", spec, value_spec)
-                } else if !spec.is_empty() {
-                    write!(f, "{}", spec)
-                } else if !value_spec.is_empty() {
-                    write!(f, "{}", value_spec)
-                } else {
-                    write!(f, "Empty")
-                }
-            },
+        if self.alternatives.is_empty() {
+            return write!(f, "Empty");
         }
+        let alternatives = self
+            .alternatives
+            .iter()
+            .map(|(labels, record_type)| format!("Labels({labels}), Content({record_type})"));
+        write!(f, "{}", show_sorted(alternatives, " | "))
     }
 }
diff --git a/pgschema/src/property_value_spec.rs b/pgschema/src/property_value_spec.rs
index ba85239..1786215 100644
--- a/pgschema/src/property_value_spec.rs
+++ b/pgschema/src/property_value_spec.rs
@@ -32,7 +32,7 @@ impl PropertyValueSpec {
                 open_semantics
             },
         };
-        Ok(FormalBaseType::new().with_content(content_semantics))
+        Ok(FormalBaseType::type_0().with_content(content_semantics))
     }
 }
 
@@ -87,7 +87,7 @@ impl PropertyValue {
                 let record = RecordType::new().with_key_value(p.str(), type_spec.to_value_type());
                 HashSet::from_iter(vec![record, RecordType::empty()])
             },
-            PropertyValue::Empty => HashSet::new(),
+            PropertyValue::Empty => HashSet::from([RecordType::empty()]),
         }
     }
 }
-- 
2.43.0


From a05d7f45d4febc94b05cc4e70a8607c4fbd45c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:51 +0000
Subject: [PATCH 44/99] fix: read all the types of a property, not only the
 first two

---
 pgschema/src/parser/pgs_builder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pgschema/src/parser/pgs_builder.rs b/pgschema/src/parser/pgs_builder.rs
index fc5983f..846c6e5 100644
--- a/pgschema/src/parser/pgs_builder.rs
+++ b/pgschema/src/parser/pgs_builder.rs
@@ -220,15 +220,19 @@ fn get_type_spec(type_spec: TypeSpec) -> Result<PGTypeSpec, PgsError> {
 }
 
 fn get_more_types(more_types: MoreTypes, current: PGTypeSpec) -> Result<PGTypeSpec, PgsError> {
-    match more_types {
+    let (combined, more_types) = match more_types {
         MoreTypes::UnionType(union_type) => {
             let right = get_simple_type(union_type.simple_type)?;
-            Ok(PGTypeSpec::union(current, right))
+            (PGTypeSpec::union(current, right), union_type.more_types_opt)
         },
         MoreTypes::IntersectionType(intersection_type) => {
             let right = get_simple_type(intersection_type.simple_type)?;
-            Ok(PGTypeSpec::intersection(current, right))
+            (PGTypeSpec::intersection(current, right), intersection_type.more_types_opt)
         },
+    };
+    match *more_types {
+        Some(more_types) => get_more_types(more_types, combined),
+        None => Ok(combined),
     }
 }
 
-- 
2.43.0


From bbaba93aefaa193ec0ffb392149f1896fd9509b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:54 +0000
Subject: [PATCH 45/99] fix: keep the properties of a property graph type which
 has no labels

---
 pgschema/src/parser/pgs_builder.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pgschema/src/parser/pgs_builder.rs b/pgschema/src/parser/pgs_builder.rs
index 846c6e5..26b921e 100644
--- a/pgschema/src/parser/pgs_builder.rs
+++ b/pgschema/src/parser/pgs_builder.rs
@@ -74,19 +74,19 @@ fn get_create_types(create_types: Vec<CreateType>, schema: &mut PropertyGraphSch
 }
 
 fn get_label_property_spec(label_property_spec: LabelPropertySpec) -> Result<PGLabelPropertySpec, PgsError> {
-    if let Some(label_spec) = label_property_spec.label_spec_opt {
-        let label_spec = get_labels(label_spec)?;
-        if let Some(property_spec) = label_property_spec.property_spec_opt {
+    let label_spec = match label_property_spec.label_spec_opt {
+        Some(label_spec) => get_labels(label_spec)?,
+        None => PGLabelPropertySpec::new(),
+    };
+    match label_property_spec.property_spec_opt {
+        Some(property_spec) => {
             let property_value_spec = get_property_value_spec(property_spec)?;
             Ok(PGLabelPropertySpec::content(
                 label_spec,
                 PGPropertyValueSpec::closed(property_value_spec),
             ))
-        } else {
-            Ok(label_spec)
-        }
-    } else {
-        Ok(PGLabelPropertySpec::new())
+        },
+        None => Ok(label_spec),
     }
 }
 
-- 
2.43.0


From 3d0a4486c4afa98754d14a3e209126ecc738fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:57 +0000
Subject: [PATCH 46/99] fix: refuse CREATE GRAPH TYPE with an error instead of
 a panic

---
 pgschema/src/parser/pgs_builder.rs | 6 +++++-
 pgschema/src/pgs_error.rs          | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pgschema/src/parser/pgs_builder.rs b/pgschema/src/parser/pgs_builder.rs
index 26b921e..3c1cfa1 100644
--- a/pgschema/src/parser/pgs_builder.rs
+++ b/pgschema/src/parser/pgs_builder.rs
@@ -67,7 +67,11 @@ fn get_create_types(create_types: Vec<CreateType>, schema: &mut PropertyGraphSch
                     let _ = schema.add_blank_edge_spec(source_spec, label_property_spec, target_spec);
                 }
             },
-            CreateType::CreateGraphType(_) => todo!(),
+            CreateType::CreateGraphType(_) => {
+                return Err(PgsError::UnsupportedStatement {
+                    statement: "CREATE GRAPH TYPE".to_string(),
+                });
+            },
         }
     }
     Ok(())
diff --git a/pgschema/src/pgs_error.rs b/pgschema/src/pgs_error.rs
index 50263a9..1cda9ac 100644
--- a/pgschema/src/pgs_error.rs
+++ b/pgschema/src/pgs_error.rs
@@ -57,6 +57,9 @@ pub enum PgsError {
     #[error("Parser error parsing property graph schema: {error}")]
     ParserError { error: String },
 
+    #[error("Statements {statement} are not supported yet")]
+    UnsupportedStatement { statement: String },
+
     #[error("Parser error parsing property graph: {error}")]
     PGParserError { error: String },
 
-- 
2.43.0


From 7761497a166354b8ee49a17fad9bc9dda4ed6fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:26 +0000
Subject: [PATCH 47/99] fix: answer property graph types defined in terms of
 themselves with an error

---
 pgschema/src/label_property_spec.rs | 33 ++++++++++++++++++++++-------
 pgschema/src/pgs_error.rs           |  3 +++
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/pgschema/src/label_property_spec.rs b/pgschema/src/label_property_spec.rs
index 1cd8bb8..d55ed19 100644
--- a/pgschema/src/label_property_spec.rs
+++ b/pgschema/src/label_property_spec.rs
@@ -56,33 +56,50 @@ impl LabelPropertySpec {
     }
 
     pub fn semantics(&self, schema: &PropertyGraphSchema) -> Result<FormalBaseType, PgsError> {
+        self.semantics_within(schema, &mut Vec::new())
+    }
+
+    // `enclosing` contains the names of the types whose semantics is being calculated
+    fn semantics_within<'a>(
+        &'a self,
+        schema: &'a PropertyGraphSchema,
+        enclosing: &mut Vec<&'a TypeName>,
+    ) -> Result<FormalBaseType, PgsError> {
         match self {
             LabelPropertySpec::Empty => Ok(FormalBaseType::type_0()),
             LabelPropertySpec::Label(label) => Ok(FormalBaseType::from_label(label.clone())),
             LabelPropertySpec::Ref(type_name) => {
+                if enclosing.contains(&type_name) {
+                    return Err(PgsError::RecursiveType {
+                        type_name: type_name.clone(),
+                    });
+                }
                 let label_property_spec = schema.get_node_semantics(type_name)?;
-                label_property_spec.semantics(schema)
+                enclosing.push(type_name);
+                let semantics = label_property_spec.semantics_within(schema, enclosing);
+                enclosing.pop();
+                semantics
             },
             LabelPropertySpec::Optional(label_property_spec) => {
-                let base_type = label_property_spec.semantics(schema)?;
+                let base_type = label_property_spec.semantics_within(schema, enclosing)?;
                 Ok(base_type.union(&FormalBaseType::type_0()))
             },
             LabelPropertySpec::And(label_property_spec, label_property_spec1) => {
-                let base_type = label_property_spec.semantics(schema)?;
-                let base_type1 = label_property_spec1.semantics(schema)?;
+                let base_type = label_property_spec.semantics_within(schema, enclosing)?;
+                let base_type1 = label_property_spec1.semantics_within(schema, enclosing)?;
                 Ok(base_type.combine(&base_type1))
             },
             LabelPropertySpec::Or(label_property_spec, label_property_spec1) => {
-                let base_type = label_property_spec.semantics(schema)?;
-                let base_type1 = label_property_spec1.semantics(schema)?;
+                let base_type = label_property_spec.semantics_within(schema, enclosing)?;
+                let base_type1 = label_property_spec1.semantics_within(schema, enclosing)?;
                 Ok(base_type.union(&base_type1))
             },
             LabelPropertySpec::Open(label_property_spec) => {
-                let base_type = label_property_spec.semantics(schema)?;
+                let base_type = label_property_spec.semantics_within(schema, enclosing)?;
                 Ok(base_type.with_open())
             },
             LabelPropertySpec::Content(label_property_spec, property_value_spec) => {
-                let base_type = label_property_spec.semantics(schema)?;
+                let base_type = label_property_spec.semantics_within(schema, enclosing)?;
                 let property_value_semantics = property_value_spec.semantics()?;
                 let result = base_type.combine(&property_value_semantics);
                 Ok(result)
diff --git a/pgschema/src/pgs_error.rs b/pgschema/src/pgs_error.rs
index 1cda9ac..5bf7b3b 100644
--- a/pgschema/src/pgs_error.rs
+++ b/pgschema/src/pgs_error.rs
@@ -21,6 +21,9 @@ pub enum PgsError {
     #[error("Error parsing as number: {0}")]
     InvalidNumber(String),
 
+    #[error("Type {type_name} is defined in terms of itself")]
+    RecursiveType { type_name: TypeName },
+
     #[error("Not found type: {0}")]
     MissingType(TypeName),
 
-- 
2.43.0


From e126b486239870f946fca8b56e1861b89c3e0a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:08 +0000
Subject: [PATCH 48/99] fix: keep the properties without values of a node when
 property graphs are merged

---
 pgschema/src/node.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pgschema/src/node.rs b/pgschema/src/node.rs
index 8d49a8a..6d83e6b 100644
--- a/pgschema/src/node.rs
+++ b/pgschema/src/node.rs
@@ -53,9 +53,7 @@ impl Node {
 
         // Merge properties
         for (key, values) in other.properties.iter() {
-            for value in values {
-                self.properties = self.properties.clone().with_key_value(key.str(), value.clone());
-            }
+            self.properties.insert_values(key.clone(), values.clone());
         }
     }
 }
-- 
2.43.0


From 118a21d95a1c2a58c8eff68097c358725d5d8daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:51 +0000
Subject: [PATCH 49/99] fix: keep the datatype of a DCTAP statement when it is
 converted to ShEx

---
 shapes_converter/src/tap_to_shex/tap2shex.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shapes_converter/src/tap_to_shex/tap2shex.rs b/shapes_converter/src/tap_to_shex/tap2shex.rs
index 7a1ecdc..d82174a 100644
--- a/shapes_converter/src/tap_to_shex/tap2shex.rs
+++ b/shapes_converter/src/tap_to_shex/tap2shex.rs
@@ -210,6 +210,7 @@ fn parse_node_constraint(
             if let Some(constraint) = statement.value_constraint() {
                 parse_constraint(constraint, config, &mut nc, statement.source_line_number())?;
             }
+            *shape_expr = Some(ShapeExpr::node_constraint(nc));
         },
         datatypes => {
             let mut shape_exprs = Vec::new();
-- 
2.43.0


From 50af8ac4e95207032b33eaa88081bafb6612a94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:51 +0000
Subject: [PATCH 50/99] fix: separate the shapes of a DCTAP cell at the
 configured delimiter

---
 shapes_converter/src/tap_to_shex/tap2shex.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shapes_converter/src/tap_to_shex/tap2shex.rs b/shapes_converter/src/tap_to_shex/tap2shex.rs
index d82174a..2f116f4 100644
--- a/shapes_converter/src/tap_to_shex/tap2shex.rs
+++ b/shapes_converter/src/tap_to_shex/tap2shex.rs
@@ -131,8 +131,9 @@ fn parse_shape_ref(
     if let Some(shape_refs) = statement.value_shape() {
         let line_no = shape_refs.line();
         let mut shapes = Vec::new();
-        for s in shape_refs.str().split_whitespace() {
-            if s == config.dctap().value_shape_delimiter().to_string() {
+        let delimiter = config.dctap().value_shape_delimiter();
+        for s in shape_refs.str().split(|c: char| c.is_whitespace() || c == delimiter) {
+            if s.is_empty() {
                 continue;
             }
             let sid = ShapeId::new(s, line_no);
-- 
2.43.0


From e9647db0bc500bd79d6ad9356824cef01b75ff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:51 +0000
Subject: [PATCH 51/99] fix: resolve bare DCTAP datatypes with
 datatype_base_iri

---
 shapes_converter/src/tap_to_shex/tap2shex.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shapes_converter/src/tap_to_shex/tap2shex.rs b/shapes_converter/src/tap_to_shex/tap2shex.rs
index 2f116f4..c79d5ad 100644
--- a/shapes_converter/src/tap_to_shex/tap2shex.rs
+++ b/shapes_converter/src/tap_to_shex/tap2shex.rs
@@ -179,7 +179,10 @@ fn get_max(repeatable: Option<bool>) -> Option<i32> {
 // TODO: Added the following to make clippy happy...should we refactor Tap2ShExError ?
 #[allow(clippy::result_large_err)]
 fn datatype_id2iri<'a>(datatype_id: &'a DatatypeId, config: &'a Tap2ShExConfig) -> Result<IriS, Tap2ShExError> {
-    let iri = config.resolve_iri(datatype_id.str(), datatype_id.line())?;
+    let iri = match config.datatype_base_iri() {
+        Some(datatype_base) if !datatype_id.str().contains(':') => datatype_base.extend(datatype_id.str())?,
+        _ => config.resolve_iri(datatype_id.str(), datatype_id.line())?,
+    };
     Ok(iri)
 }
 
-- 
2.43.0


From e1433efbe6de42ccb5925b6c6e99af3259d6a701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:51 +0000
Subject: [PATCH 52/99] fix: do not carry the label of a DCTAP shape over to
 the next, nor invent empty ones

---
 dctap/src/tap_reader.rs | 2 +-
 dctap/src/tap_shape.rs  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/dctap/src/tap_reader.rs b/dctap/src/tap_reader.rs
index 4162072..2fa5fd3 100644
--- a/dctap/src/tap_reader.rs
+++ b/dctap/src/tap_reader.rs
@@ -169,7 +169,7 @@ impl<R: io::Read> TapReader<R> {
 
     fn get_shape_label(&mut self, rcd: &StringRecord) -> Result<Option<String>> {
         if let Some(str) = self.state.headers().shape_label(rcd) {
-            Ok(Some(str.trim().to_string()))
+            Ok(strip_whitespace(&str).map(str::to_string))
         } else {
             Ok(None)
         }
diff --git a/dctap/src/tap_shape.rs b/dctap/src/tap_shape.rs
index 2e53e5c..eba19a0 100644
--- a/dctap/src/tap_shape.rs
+++ b/dctap/src/tap_shape.rs
@@ -44,7 +44,8 @@ impl TapShape {
 
     pub fn set_shape_id(&mut self, shape_id: &ShapeId) {
         self.shape_id = Some(shape_id.clone());
-        // Reset the statements because we have a new shape
+        // Reset the label and the statements because we have a new shape
+        self.shape_label = None;
         self.statements = Vec::new();
     }
 
-- 
2.43.0


From 44a80b1de0f2cb99b0c235f15f017c75114cb0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:52 +0000
Subject: [PATCH 53/99] fix: take blank DCTAP property cells as empty

---
 dctap/src/tap_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dctap/src/tap_reader.rs b/dctap/src/tap_reader.rs
index 2fa5fd3..9ad6b24 100644
--- a/dctap/src/tap_reader.rs
+++ b/dctap/src/tap_reader.rs
@@ -184,9 +184,9 @@ impl<R: io::Read> TapReader<R> {
 
     fn get_property_id(&mut self, rcd: &StringRecord, pos: &Position) -> Option<PropertyId> {
         if let Some(str) = self.state.headers().property_id(rcd) {
-            if str.is_empty() {
+            if str.trim().is_empty() {
                 if let Some(str_label) = self.state.headers().property_label(rcd) {
-                    if str_label.is_empty() {
+                    if str_label.trim().is_empty() {
                         // TODO!, there is a property label and an empty property id
                         // Generate new property based on property label?
                         // If we don't do nothing here, it generates from empty_property_placeholder
-- 
2.43.0


From 9c3a8a5841c71810d4172308103a06296470a738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:52 +0000
Subject: [PATCH 54/99] fix: ignore blanks around the values of DCTAP picklists

---
 dctap/src/tap_reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dctap/src/tap_reader.rs b/dctap/src/tap_reader.rs
index 9ad6b24..c072fe9 100644
--- a/dctap/src/tap_reader.rs
+++ b/dctap/src/tap_reader.rs
@@ -454,7 +454,11 @@ fn parse_boolean(str: &str, field: &str, pos: &Position) -> Result<bool> {
 }
 
 fn parse_values(str: &str, delimiter: char) -> Result<Vec<Value>> {
-    Ok(str.split_terminator(delimiter).map(Value::new).collect())
+    Ok(str
+        .split(delimiter)
+        .filter_map(strip_whitespace)
+        .map(Value::new)
+        .collect())
 }
 
 fn strip_whitespace(str: &str) -> Option<&str> {
-- 
2.43.0


From 93810aada57bb3ab5e544382c09906ab38ea4ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:52 +0000
Subject: [PATCH 55/99] fix: read booleans from DCTAP workbooks and tables that
 do not start in the first cell

---
 dctap/src/reader_range.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dctap/src/reader_range.rs b/dctap/src/reader_range.rs
index 6ff03f5..947fa38 100644
--- a/dctap/src/reader_range.rs
+++ b/dctap/src/reader_range.rs
@@ -28,10 +28,12 @@ impl<R> ReaderRange<R> {
         } else {
             let mut rcd = StringRecord::new();
             for column in 0..self.range.width() {
-                let row = self.current_line as u32;
-                if let Some(data) = self.range.get_value((row, column as u32)) {
+                let row = self.current_line;
+                if let Some(data) = self.range.get((row, column)) {
                     if let Some(str) = data.as_string() {
                         rcd.push_field(&str);
+                    } else if let Some(b) = data.get_bool() {
+                        rcd.push_field(if b { "TRUE" } else { "FALSE" });
                     } else {
                         debug!("Processing excel, data can not converted to string: {data:?} at ({row},{column})");
                         rcd.push_field("");
-- 
2.43.0


From 2a0ca57075ee26204e4e596f01373bf65810683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:52 +0000
Subject: [PATCH 56/99] fix: accept plantuml as a result format of conversions

---
 rudof_lib/src/formats/conversion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rudof_lib/src/formats/conversion.rs b/rudof_lib/src/formats/conversion.rs
index d7391b0..7b1c9c7 100644
--- a/rudof_lib/src/formats/conversion.rs
+++ b/rudof_lib/src/formats/conversion.rs
@@ -277,7 +277,7 @@ impl FromStr for ResultConversionFormat {
             "shexc" => Ok(ResultConversionFormat::ShExC),
             "shexj" => Ok(ResultConversionFormat::ShExJ),
             "turtle" => Ok(ResultConversionFormat::Turtle),
-            "uml" => Ok(ResultConversionFormat::PlantUML),
+            "uml" | "plantuml" => Ok(ResultConversionFormat::PlantUML),
             "html" => Ok(ResultConversionFormat::Html),
             "svg" => Ok(ResultConversionFormat::Svg),
             "png" => Ok(ResultConversionFormat::Png),
-- 
2.43.0


From 14c1d69baa0f4337ff2c776b5e7d68c42a0e8df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:37 +0000
Subject: [PATCH 57/99] fix: detect property graph types defined in terms of
 themselves where types are looked up

Also gives types made only of properties their content in FormalBaseType, which leaves the
specifications themselves as they were.
---
 pgschema/src/formal_base_type.rs    | 14 +++++++++-
 pgschema/src/label_property_spec.rs | 33 ++++++------------------
 pgschema/src/pgs.rs                 | 40 ++++++++++++++++++++++++++++-
 pgschema/src/property_value_spec.rs |  4 +--
 4 files changed, 62 insertions(+), 29 deletions(-)

diff --git a/pgschema/src/formal_base_type.rs b/pgschema/src/formal_base_type.rs
index 11f03f6..40b279c 100644
--- a/pgschema/src/formal_base_type.rs
+++ b/pgschema/src/formal_base_type.rs
@@ -53,12 +53,24 @@ impl FormalBaseType {
         self.with_content(HashSet::from([record_type]))
     }
 
-    /// Adds some content, which is one of the given RecordTypes, to every alternative.
+    /// Adds some content, which is one of the given RecordTypes, to every alternative. A type without alternatives
+    /// gets the content alone, without labels. No RecordTypes at all mean no content.
     pub fn with_content(self, content: HashSet<RecordType>) -> Self {
+        let content = if content.is_empty() {
+            HashSet::from([RecordType::empty()])
+        } else {
+            content
+        };
         let content_type = FormalBaseType {
             alternatives: content.into_iter().map(|record| (LabelSet::new(), record)).collect(),
             open_labels: false,
         };
+        if self.alternatives.is_empty() {
+            return FormalBaseType {
+                open_labels: self.open_labels,
+                ..content_type
+            };
+        }
         self.combine(&content_type)
     }
 
diff --git a/pgschema/src/label_property_spec.rs b/pgschema/src/label_property_spec.rs
index d55ed19..1cd8bb8 100644
--- a/pgschema/src/label_property_spec.rs
+++ b/pgschema/src/label_property_spec.rs
@@ -56,50 +56,33 @@ impl LabelPropertySpec {
     }
 
     pub fn semantics(&self, schema: &PropertyGraphSchema) -> Result<FormalBaseType, PgsError> {
-        self.semantics_within(schema, &mut Vec::new())
-    }
-
-    // `enclosing` contains the names of the types whose semantics is being calculated
-    fn semantics_within<'a>(
-        &'a self,
-        schema: &'a PropertyGraphSchema,
-        enclosing: &mut Vec<&'a TypeName>,
-    ) -> Result<FormalBaseType, PgsError> {
         match self {
             LabelPropertySpec::Empty => Ok(FormalBaseType::type_0()),
             LabelPropertySpec::Label(label) => Ok(FormalBaseType::from_label(label.clone())),
             LabelPropertySpec::Ref(type_name) => {
-                if enclosing.contains(&type_name) {
-                    return Err(PgsError::RecursiveType {
-                        type_name: type_name.clone(),
-                    });
-                }
                 let label_property_spec = schema.get_node_semantics(type_name)?;
-                enclosing.push(type_name);
-                let semantics = label_property_spec.semantics_within(schema, enclosing);
-                enclosing.pop();
-                semantics
+                label_property_spec.semantics(schema)
             },
             LabelPropertySpec::Optional(label_property_spec) => {
-                let base_type = label_property_spec.semantics_within(schema, enclosing)?;
+                let base_type = label_property_spec.semantics(schema)?;
                 Ok(base_type.union(&FormalBaseType::type_0()))
             },
             LabelPropertySpec::And(label_property_spec, label_property_spec1) => {
-                let base_type = label_property_spec.semantics_within(schema, enclosing)?;
-                let base_type1 = label_property_spec1.semantics_within(schema, enclosing)?;
+                let base_type = label_property_spec.semantics(schema)?;
+                let base_type1 = label_property_spec1.semantics(schema)?;
                 Ok(base_type.combine(&base_type1))
             },
             LabelPropertySpec::Or(label_property_spec, label_property_spec1) => {
-                let base_type = label_property_spec.semantics_within(schema, enclosing)?;
-                let base_type1 = label_property_spec1.semantics_within(schema, enclosing)?;
+                let base_type = label_property_spec.semantics(schema)?;
+                let base_type1 = label_property_spec1.semantics(schema)?;
                 Ok(base_type.union(&base_type1))
             },
             LabelPropertySpec::Open(label_property_spec) => {
-                let base_type = label_property_spec.semantics_within(schema, enclosing)?;
+                let base_type = label_property_spec.semantics(schema)?;
                 Ok(base_type.with_open())
             },
             LabelPropertySpec::Content(label_property_spec, property_value_spec) => {
-                let base_type = label_property_spec.semantics_within(schema, enclosing)?;
+                let base_type = label_property_spec.semantics(schema)?;
                 let property_value_semantics = property_value_spec.semantics()?;
                 let result = base_type.combine(&property_value_semantics);
                 Ok(result)
diff --git a/pgschema/src/pgs.rs b/pgschema/src/pgs.rs
index 5d2733b..ea7fd57 100644
--- a/pgschema/src/pgs.rs
+++ b/pgschema/src/pgs.rs
@@ -4,7 +4,10 @@ use crate::{
     pgs_error::PgsError, type_name::TypeName,
 };
 use either::Either;
-use std::{collections::HashMap, fmt::Display};
+use std::{
+    collections::{HashMap, HashSet},
+    fmt::Display,
+};
 
 /// Simple representation of a property graph
 #[derive(Debug, Clone)]
@@ -46,6 +49,16 @@ impl PropertyGraphSchema {
     }
 
     pub fn get_node_semantics(&self, type_name: &str) -> Result<&LabelPropertySpec, PgsError> {
+        let spec = self.node_spec(type_name)?;
+        if self.is_recursive(type_name, spec) {
+            return Err(PgsError::RecursiveType {
+                type_name: type_name.to_string(),
+            });
+        }
+        Ok(spec)
+    }
+
+    fn node_spec(&self, type_name: &str) -> Result<&LabelPropertySpec, PgsError> {
         let node_id = self.node_names.get(type_name).ok_or(PgsError::MissingNodeLabel {
             label: type_name.to_string(),
         })?;
@@ -54,6 +67,31 @@ impl PropertyGraphSchema {
             .ok_or(PgsError::MissingType(type_name.to_string()))
     }
 
+    /// Checks if a type is defined in terms of itself, directly or through the types it refers to.
+    fn is_recursive(&self, type_name: &str, spec: &LabelPropertySpec) -> bool {
+        let mut visited = HashSet::new();
+        let mut pending = vec![spec];
+        while let Some(spec) = pending.pop() {
+            match spec {
+                LabelPropertySpec::Empty | LabelPropertySpec::Label(_) => {},
+                LabelPropertySpec::Ref(name) if name == type_name => return true,
+                LabelPropertySpec::Ref(name) => {
+                    if visited.insert(name) {
+                        pending.extend(self.node_spec(name));
+                    }
+                },
+                LabelPropertySpec::Optional(inner)
+                | LabelPropertySpec::Open(inner)
+                | LabelPropertySpec::Content(inner, _) => pending.push(inner),
+                LabelPropertySpec::And(left, right) | LabelPropertySpec::Or(left, right) => {
+                    pending.push(left);
+                    pending.push(right);
+                },
+            }
+        }
+        false
+    }
+
     pub fn get_edge_semantics(&self, type_name: &str) -> Result<&EdgeType, PgsError> {
         let edge_id = self.edge_names.get(type_name).ok_or(PgsError::MissingEdgeLabel {
             label: type_name.to_string(),
diff --git a/pgschema/src/property_value_spec.rs b/pgschema/src/property_value_spec.rs
index 1786215..ba85239 100644
--- a/pgschema/src/property_value_spec.rs
+++ b/pgschema/src/property_value_spec.rs
@@ -32,7 +32,7 @@ impl PropertyValueSpec {
                 open_semantics
             },
         };
-        Ok(FormalBaseType::type_0().with_content(content_semantics))
+        Ok(FormalBaseType::new().with_content(content_semantics))
     }
 }
 
@@ -87,7 +87,7 @@ impl PropertyValue {
                 let record = RecordType::new().with_key_value(p.str(), type_spec.to_value_type());
                 HashSet::from_iter(vec![record, RecordType::empty()])
             },
-            PropertyValue::Empty => HashSet::from([RecordType::empty()]),
+            PropertyValue::Empty => HashSet::new(),
         }
     }
 }
-- 
2.43.0


From d969eded3363e3678235bd9926e022d94659f489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:11 +0000
Subject: [PATCH 58/99] fix: qualify IRIs only when the rest is a valid local
 name

Names such as ex:a/b were written by the ShEx and shape map printers, and could not be read back.
---
 prefixmap/src/prefix_map.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/prefixmap/src/prefix_map.rs b/prefixmap/src/prefix_map.rs
index ef71cd9..92bf402 100644
--- a/prefixmap/src/prefix_map.rs
+++ b/prefixmap/src/prefix_map.rs
@@ -468,19 +468,38 @@ impl PrefixMap {
         self.longest_prefix_match(iri).map(|(_, rest)| rest.to_string())
     }
 
-    /// Finds the longest prefix match for a given IRI in the [`PrefixMap`]
+    /// Finds the longest prefix match for a given IRI in the [`PrefixMap`] which leaves a rest that can be written as a
+    /// local name
     fn longest_prefix_match<'a>(&'a self, iri: &'a IriS) -> Option<(&'a str, &'a str)> {
         self.map
             .iter()
             .filter_map(|(alias, pm_iri)| {
                 iri.as_str()
                     .strip_prefix(pm_iri.as_str())
+                    .filter(|rest| is_local_name(rest))
                     .map(|rest| (alias.as_str(), rest))
             })
             .max_by_key(|(_, rest)| iri.as_str().len() - rest.len())
     }
 }
 
+/// Checks if a string can be the local name of a prefixed name without escapes, as in the
+/// [Turtle grammar](https://www.w3.org/TR/turtle/#grammar-production-PN_LOCAL)
+fn is_local_name(str: &str) -> bool {
+    !str.starts_with(['-', '.', '\u{b7}', '\u{203f}', '\u{2040}'])
+        && !str.starts_with(|c| matches!(c, '\u{300}'..='\u{36f}'))
+        && !str.ends_with('.')
+        && str.chars().all(is_local_name_char)
+}
+
+fn is_local_name_char(c: char) -> bool {
+    matches!(c,
+        'A'..='Z' | 'a'..='z' | '0'..='9' | '_' | ':' | '-' | '.'
+        | '\u{b7}' | '\u{c0}'..='\u{d6}' | '\u{d8}'..='\u{f6}' | '\u{f8}'..='\u{37d}' | '\u{37f}'..='\u{1fff}'
+        | '\u{200c}'..='\u{200d}' | '\u{203f}'..='\u{2040}' | '\u{2070}'..='\u{218f}' | '\u{2c00}'..='\u{2fef}'
+        | '\u{3001}'..='\u{d7ff}' | '\u{f900}'..='\u{fdcf}' | '\u{fdf0}'..='\u{fffd}' | '\u{10000}'..='\u{effff}')
+}
+
 /// Resolving strings and IRI references against a [`PrefixMap`]
 impl PrefixMap {
     /// Resolves a string against a prefix map
-- 
2.43.0


From c896ac478394c6b6838e0545b2a61709f3b5fdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:11 +0000
Subject: [PATCH 59/99] fix: write the literals of shape map triple patterns as
 SPARQL terms

---
 shex_ast/src/shapemap/node_selector.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/shex_ast/src/shapemap/node_selector.rs b/shex_ast/src/shapemap/node_selector.rs
index 64b332d..5c6689a 100644
--- a/shex_ast/src/shapemap/node_selector.rs
+++ b/shex_ast/src/shapemap/node_selector.rs
@@ -1,3 +1,4 @@
+use crate::compact::quoted_string;
 use crate::object_value::ObjectValue;
 use crate::shapemap::Pattern;
 use crate::shapemap::SHACLPathRef;
@@ -141,13 +142,25 @@ fn mk_vble(p: &Pattern, prefixmap: &PrefixMap) -> Result<String, PrefixMapError>
                 let iri = prefixmap.resolve_iriref(iri_ref.clone())?;
                 Ok(format!("<{iri}>"))
             },
-            ObjectValue::Literal(sliteral) => Ok(sliteral.to_string()),
+            ObjectValue::Literal(literal) => mk_literal_str(literal, prefixmap),
         },
         Pattern::Wildcard => Ok("?any".to_string()),
         Pattern::Focus => Ok("?focus".to_string()),
     }
 }
 
+/// Literal as it is written in a SPARQL query
+fn mk_literal_str(literal: &ConcreteLiteral, prefixmap: &PrefixMap) -> Result<String, PrefixMapError> {
+    let quoted = quoted_string(&literal.lexical_form());
+    match literal.lang() {
+        Some(lang) => Ok(format!("{quoted}@{lang}")),
+        None => {
+            let datatype = prefixmap.resolve_iriref(literal.datatype())?;
+            Ok(format!("{quoted}^^<{datatype}>"))
+        },
+    }
+}
+
 #[derive(Debug, Error)]
 pub enum NodeSelectorError {}
 
-- 
2.43.0


From 822b0153b090e0addaaf23fdc65333b443fd960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:11 +0000
Subject: [PATCH 60/99] fix: print shape maps in the syntax that shape maps
 have

Associations are separated by commas, queries and strings are escaped, and literals of
every kind can be printed.
---
 .../src/compact/shapemap_compact_printer.rs   | 142 ++----------------
 1 file changed, 11 insertions(+), 131 deletions(-)

diff --git a/shex_ast/src/compact/shapemap_compact_printer.rs b/shex_ast/src/compact/shapemap_compact_printer.rs
index d247cc4..c6a69fe 100644
--- a/shex_ast/src/compact/shapemap_compact_printer.rs
+++ b/shex_ast/src/compact/shapemap_compact_printer.rs
@@ -2,12 +2,10 @@ use crate::ObjectValue;
 use crate::shapemap::Pattern;
 use crate::shapemap::SHACLPathRef;
 use crate::shapemap::{Association, NodeSelector, ShapeSelector, query_shape_map::QueryShapeMap};
-use crate::{keyword, pp_label, pp_object_value};
+use crate::{keyword, pp_label, pp_object_value, quoted_string};
 use colored::*;
 use prefixmap::{IriRef, PrefixMap};
 use pretty::{Arena, DocAllocator, DocBuilder};
-use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, Lang, NumericLiteral};
-use rust_decimal::Decimal;
 use std::borrow::Cow;
 use std::marker::PhantomData;
 
@@ -90,7 +88,6 @@ where
 {
     width: usize,
     keyword_color: Option<Color>,
-    string_color: Option<Color>,
     shapemap: &'a QueryShapeMap,
     doc: &'a Arena<'a, A>,
     marker: PhantomData<A>,
@@ -103,7 +100,6 @@ const DEFAULT_QUALIFY_ALIAS_COLOR: Option<Color> = Some(Color::Blue);
 const DEFAULT_QUALIFY_SEMICOLON_COLOR: Option<Color> = Some(Color::BrightGreen);
 const DEFAULT_QUALIFY_LOCALNAME_COLOR: Option<Color> = Some(Color::Black);
 const DEFAULT_KEYWORD_COLOR: Option<Color> = Some(Color::BrightBlue);
-const DEFAULT_STRING_COLOR: Option<Color> = Some(Color::Red);
 
 impl<'a, A> ShapemapCompactPrinter<'a, A>
 where
@@ -113,7 +109,6 @@ where
         ShapemapCompactPrinter {
             width: DEFAULT_WIDTH,
             keyword_color: DEFAULT_KEYWORD_COLOR,
-            string_color: DEFAULT_STRING_COLOR,
             shapemap,
             doc,
             marker: PhantomData,
@@ -168,12 +163,18 @@ where
         for a in self.shapemap.iter() {
             docs.push(self.pp_association(a))
         }
-        self.doc.intersperse(docs, self.doc.hardline())
+        self.doc
+            .intersperse(docs, self.doc.text(",").append(self.doc.hardline()))
     }
 
     fn pp_association(&self, assoc: &Association) -> DocBuilder<'a, Arena<'a, A>, A> {
+        // `"x"@en` is a literal with a language tag, so there must be a space between a literal and the `@`
+        let at = match &assoc.node_selector {
+            NodeSelector::Node(ObjectValue::Literal(_)) => " @",
+            _ => "@",
+        };
         self.pp_node_selector(&assoc.node_selector)
-            .append(self.doc.text("@"))
+            .append(self.doc.text(at))
             .append(self.pp_shape_selector(&assoc.shape_selector))
     }
 
@@ -195,7 +196,7 @@ where
             NodeSelector::Sparql { query } => self
                 .keyword("SPARQL")
                 .append(self.space())
-                .append(self.triple_quotes(query)),
+                .append(self.doc.text(quoted_string(query))),
             NodeSelector::Generic { .. } => todo!(),
         }
     }
@@ -204,10 +205,6 @@ where
         self.doc.space()
     }
 
-    pub fn triple_quotes(&self, str: &str) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(format!("'''{str}'''"))
-    }
-
     fn pp_shacl_path(&self, path: &SHACLPathRef, prefixmap: &PrefixMap) -> DocBuilder<'a, Arena<'a, A>, A> {
         match path {
             SHACLPathRef::Predicate { pred } => self.pp_iri_ref(pred, prefixmap),
@@ -217,129 +214,12 @@ where
 
     pub fn pp_pattern(&self, pat: &Pattern) -> DocBuilder<'a, Arena<'a, A>, A> {
         match pat {
-            Pattern::Node(object_value) => self.pp_object_value(object_value),
+            Pattern::Node(object_value) => pp_object_value(object_value, self.doc, &self.nodes_prefixmap),
             Pattern::Wildcard => self.doc.text("_"),
             Pattern::Focus => self.keyword("FOCUS"),
         }
     }
 
-    pub fn pp_object_value(&self, ov: &ObjectValue) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match ov {
-            ObjectValue::IriRef(iri_ref) => self.pp_iri_ref(iri_ref, &self.nodes_prefixmap),
-            ObjectValue::Literal(sliteral) => self.pp_literal(sliteral),
-        }
-    }
-
-    fn pp_literal(&self, literal: &ConcreteLiteral) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match literal {
-            ConcreteLiteral::StringLiteral { lexical_form, lang } => self.pp_string_literal(lexical_form, lang),
-            ConcreteLiteral::DatatypeLiteral {
-                lexical_form: _,
-                datatype: _,
-            } => todo!(),
-            ConcreteLiteral::WrongDatatypeLiteral {
-                lexical_form: _,
-                datatype: _,
-                error: _,
-            } => todo!(),
-            ConcreteLiteral::NumericLiteral(lit) => self.pp_numeric_literal(lit),
-            ConcreteLiteral::BooleanLiteral(_) => todo!(),
-            ConcreteLiteral::DatetimeLiteral(_xsd_date_time) => todo!(),
-        }
-    }
-
-    fn pp_numeric_literal(&self, value: &NumericLiteral) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match value {
-            NumericLiteral::Integer(n) => self.pp_isize(&(*n as isize)),
-            NumericLiteral::Decimal(d) => self.pp_decimal(d),
-            NumericLiteral::Double(d) => self.pp_double(d),
-            NumericLiteral::Long(l) => self.pp_isize(&(*l as isize)),
-            NumericLiteral::Float(f) => self.pp_float(&(*f as f64)),
-            NumericLiteral::Byte(b) => self.pp_byte(b),
-            NumericLiteral::Short(s) => self.pp_short(s),
-            NumericLiteral::NonNegativeInteger(n) => self.pp_non_negative_integer(n),
-            NumericLiteral::UnsignedLong(u) => self.pp_unsigned_long(u),
-            NumericLiteral::UnsignedInt(u) => self.pp_unsigned_int(u),
-            NumericLiteral::UnsignedShort(u) => self.pp_unsigned_short(u),
-            NumericLiteral::UnsignedByte(n) => self.pp_unsigned_byte(n),
-            NumericLiteral::PositiveInteger(n) => self.pp_positive_integer(n),
-            NumericLiteral::NegativeInteger(n) => self.pp_negative_integer(n),
-            NumericLiteral::NonPositiveInteger(n) => self.pp_non_positive_integer(n),
-        }
-    }
-
-    fn pp_isize(&self, value: &isize) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_decimal(&self, value: &Decimal) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_double(&self, value: &f64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_float(&self, value: &f64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_byte(&self, value: &i8) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_short(&self, value: &i16) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_non_negative_integer(&self, value: &u128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_long(&self, value: &u64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_int(&self, value: &u32) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_short(&self, value: &u16) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_byte(&self, value: &u8) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_positive_integer(&self, value: &u128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_negative_integer(&self, value: &i128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_non_positive_integer(&self, value: &i128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_string_literal(&self, lexical_form: &str, lang: &Option<Lang>) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match lang {
-            Some(_) => todo!(),
-            None => self.pp_string(lexical_form),
-        }
-    }
-
-    fn pp_string(&self, str: &str) -> DocBuilder<'a, Arena<'a, A>, A> {
-        let s = format!("\"{str}\"");
-        if let Some(color) = self.string_color {
-            self.doc.text(s.as_str().color(color).to_string())
-        } else {
-            self.doc.text(s)
-        }
-    }
-
     fn pp_iri_ref(&self, value: &IriRef, prefixmap: &PrefixMap) -> DocBuilder<'a, Arena<'a, A>, A> {
         match value {
             IriRef::Iri(iri) => self.doc.text(prefixmap.qualify(iri)),
-- 
2.43.0


From 7092d98dbfe5c1985a1e7a3f1b9e834eeac12d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:35 +0000
Subject: [PATCH 61/99] fix: read prefixed names whose prefix is a ShEx keyword

start:x, base:x, not:S or true:x were read as the keyword followed by
something else, and the schema was refused.
---
 shex_ast/src/compact/grammar.rs      | 26 ++++++++++++----
 shex_ast/src/compact/shex_grammar.rs | 45 +++++++++++++++-------------
 2 files changed, 44 insertions(+), 27 deletions(-)

diff --git a/shex_ast/src/compact/grammar.rs b/shex_ast/src/compact/grammar.rs
index 134eeff..325009a 100644
--- a/shex_ast/src/compact/grammar.rs
+++ b/shex_ast/src/compact/grammar.rs
@@ -2,11 +2,11 @@ use crate::{IRes, LocatedParseError, Span, shex_parser_error::ParseError as ShEx
 use nom::{
     Err, Parser,
     branch::alt,
-    bytes::complete::{is_not, tag, tag_no_case, take_until},
-    character::complete::multispace1,
-    combinator::value,
+    bytes::complete::{is_not, tag, tag_no_case, take_until, take_while},
+    character::complete::{char, multispace1},
+    combinator::{not, value},
     multi::many0,
-    sequence::{delimited, pair},
+    sequence::{delimited, pair, terminated},
 };
 use std::fmt::Debug;
 
@@ -103,6 +103,20 @@ pub(crate) fn token<'a>(token: &'a str) -> impl FnMut(Span<'a>) -> IRes<'a, Span
     map_error(tag(token), || ShExParseError::ExpectedToken(token.to_string()))
 }
 
+/// A combinator that creates a parser for a keyword, in upper or lower case.
+///
+/// What is the beginning of a prefixed name, such as `start:x`, is not a keyword.
+pub(crate) fn keyword_token<'a>(token: &'a str) -> impl FnMut(Span<'a>) -> IRes<'a, Span<'a>> {
+    let prefix_end = |i| pair(take_while(is_prefix_char), char(':')).parse(i);
+    map_error(terminated(tag_no_case(token), not(prefix_end)), || {
+        ShExParseError::ExpectedToken(token.to_string())
+    })
+}
+
+fn is_prefix_char(c: char) -> bool {
+    c.is_alphanumeric() || matches!(c, '_' | '-' | '.')
+}
+
 /// A combinator that creates a parser for a specific token,
 /// surrounded by trailing whitespace or comments.
 pub(crate) fn token_tws<'a>(token: &'a str) -> impl FnMut(Span<'a>) -> IRes<'a, Span<'a>> {
@@ -114,7 +128,7 @@ pub(crate) fn token_tws<'a>(token: &'a str) -> impl FnMut(Span<'a>) -> IRes<'a,
 /// A combinator that creates a parser for a specific token,
 /// surrounded by trailing whitespace or comments.
 pub(crate) fn token_tws_no_case<'a>(token: &'a str) -> impl FnMut(Span<'a>) -> IRes<'a, Span<'a>> {
-    map_error(delimited(tws0, tag_no_case(token), tws0), || {
+    map_error(delimited(tws0, keyword_token(token), tws0), || {
         ShExParseError::ExpectedToken(token.to_string())
     })
 }
@@ -122,7 +136,7 @@ pub(crate) fn token_tws_no_case<'a>(token: &'a str) -> impl FnMut(Span<'a>) -> I
 /// A combinator that creates a parser for a case insensitive tag,
 /// surrounded by trailing whitespace or comments.
 pub(crate) fn tag_no_case_tws<'a>(token: &'a str) -> impl FnMut(Span<'a>) -> IRes<'a, Span<'a>> {
-    map_error(delimited(tws0, tag_no_case(token), tws0), || {
+    map_error(delimited(tws0, keyword_token(token), tws0), || {
         ShExParseError::ExpectedToken(token.to_string())
     })
 }
diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 3756a16..f517051 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -1,8 +1,8 @@
 use crate::compact::grammar::token_tws_no_case;
 use crate::compact::grammar_structs::{Cardinality, NumericLength, NumericRange, Qualifier, SenseFlags, ShExStatement};
 use crate::compact::{
-    IRes, Span, grammar::map_error, grammar::tag_no_case_tws, grammar::token, grammar::token_tws, grammar::tws0,
-    shex_parser_error::ParseError as ShExParseError,
+    IRes, Span, grammar::keyword_token, grammar::map_error, grammar::tag_no_case_tws, grammar::token,
+    grammar::token_tws, grammar::tws0, shex_parser_error::ParseError as ShExParseError,
 };
 use crate::iri_ref_or_wildcard::IriRefOrWildcard;
 use crate::string_or_wildcard::StringOrWildcard;
@@ -13,7 +13,6 @@ use crate::{
     value_set_value::ValueSetValue,
 };
 use lazy_regex::{Lazy, regex};
-use nom::bytes::complete::tag_no_case;
 use nom::{
     Err, Input, Parser,
     branch::alt,
@@ -53,7 +52,7 @@ fn directive(i: Span) -> IRes<ShExStatement> {
 fn base_decl<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, ShExStatement<'a>> {
     map_error(
         move |i| {
-            let (i, (_, _, iri_ref)) = (tag_no_case("BASE"), tws0, cut(iri_ref)).parse(i)?;
+            let (i, (_, _, iri_ref)) = (keyword_token("BASE"), tws0, cut(iri_ref)).parse(i)?;
             Ok((i, ShExStatement::BaseDecl { iri: iri_ref }))
         },
         || ShExParseError::ExpectedBaseDecl,
@@ -65,7 +64,7 @@ fn prefix_decl<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, ShExStatement<'a>> {
     map_error(
         move |i| {
             let (i, (_, _, pname_ns, _, iri_ref)) =
-                (tag_no_case("PREFIX"), tws0, cut(pname_ns), tws0, cut(iri_ref)).parse(i)?;
+                (keyword_token("PREFIX"), tws0, cut(pname_ns), tws0, cut(iri_ref)).parse(i)?;
             Ok((
                 i,
                 ShExStatement::PrefixDecl {
@@ -83,7 +82,7 @@ fn prefix_decl<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, ShExStatement<'a>> {
 fn import_decl<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, ShExStatement<'a>> {
     map_error(
         move |i| {
-            let (i, (_, _, iri)) = (tag_no_case("IMPORT"), tws0, cut(iri)).parse(i)?;
+            let (i, (_, _, iri)) = (keyword_token("IMPORT"), tws0, cut(iri)).parse(i)?;
             tracing::debug!("grammar: Import {iri:?}");
             Ok((i, ShExStatement::ImportDecl { iri }))
         },
@@ -101,7 +100,7 @@ fn start<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, ShExStatement<'a>> {
     map_error(
         move |i| {
             let (i, (_, _, _, _, se)) = (
-                tag_no_case("START"),
+                keyword_token("START"),
                 tws0,
                 cut(char('=')),
                 tws0,
@@ -158,7 +157,7 @@ fn shape_expr_or_external<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, ShapeExpr> {
 }
 
 fn external(i: Span) -> IRes<ShapeExpr> {
-    let (i, _) = tag_no_case("EXTERNAL")(i)?;
+    let (i, _) = keyword_token("EXTERNAL")(i)?;
     Ok((i, ShapeExpr::external()))
 }
 
@@ -386,7 +385,7 @@ fn lit_node_constraint<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, NodeConstraint>
 
 fn literal_facets<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, NodeConstraint> {
     move |i| {
-        let (i, (_, _, facets)) = (tag_no_case("LITERAL"), tws0, facets()).parse(i)?;
+        let (i, (_, _, facets)) = (keyword_token("LITERAL"), tws0, facets()).parse(i)?;
         Ok((
             i,
             NodeConstraint::new()
@@ -479,17 +478,17 @@ fn string_length(i: Span) -> IRes<XsFacet> {
 }
 
 fn min_length(i: Span) -> IRes<XsFacet> {
-    let (i, (_, _, n)) = (tag_no_case("MINLENGTH"), tws0, pos_integer).parse(i)?;
+    let (i, (_, _, n)) = (keyword_token("MINLENGTH"), tws0, pos_integer).parse(i)?;
     Ok((i, XsFacet::min_length(n)))
 }
 
 fn max_length(i: Span) -> IRes<XsFacet> {
-    let (i, (_, _, n)) = (tag_no_case("MAXLENGTH"), tws0, pos_integer).parse(i)?;
+    let (i, (_, _, n)) = (keyword_token("MAXLENGTH"), tws0, pos_integer).parse(i)?;
     Ok((i, XsFacet::max_length(n)))
 }
 
 fn length(i: Span) -> IRes<XsFacet> {
-    let (i, (_, _, n)) = (tag_no_case("LENGTH"), tws0, pos_integer).parse(i)?;
+    let (i, (_, _, n)) = (keyword_token("LENGTH"), tws0, pos_integer).parse(i)?;
     Ok((i, XsFacet::length(n)))
 }
 
@@ -537,10 +536,10 @@ fn numeric_length_int<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, XsFacet> {
 
 fn numeric_length(i: Span) -> IRes<NumericLength> {
     alt((
-        map(terminated(tag_no_case("TOTALDIGITS"), tws0), |_| {
+        map(terminated(keyword_token("TOTALDIGITS"), tws0), |_| {
             NumericLength::TotalDigits
         }),
-        map(terminated(tag_no_case("FRACTIONDIGITS"), tws0), |_| {
+        map(terminated(keyword_token("FRACTIONDIGITS"), tws0), |_| {
             NumericLength::FractionDigits
         }),
     ))
@@ -550,16 +549,16 @@ fn numeric_length(i: Span) -> IRes<NumericLength> {
 /// `[31] numericRange ::= "MININCLUSIVE" | "MINEXCLUSIVE" | "MAXINCLUSIVE" | "MAXEXCLUSIVE"`
 fn numeric_range(i: Span) -> IRes<NumericRange> {
     alt((
-        map(terminated(tag_no_case("MININCLUSIVE"), tws0), |_| {
+        map(terminated(keyword_token("MININCLUSIVE"), tws0), |_| {
             NumericRange::MinInclusive
         }),
-        map(terminated(tag_no_case("MAXINCLUSIVE"), tws0), |_| {
+        map(terminated(keyword_token("MAXINCLUSIVE"), tws0), |_| {
             NumericRange::MaxInclusive
         }),
-        map(terminated(tag_no_case("MINEXCLUSIVE"), tws0), |_| {
+        map(terminated(keyword_token("MINEXCLUSIVE"), tws0), |_| {
             NumericRange::MinExclusive
         }),
-        map(terminated(tag_no_case("MAXEXCLUSIVE"), tws0), |_| {
+        map(terminated(keyword_token("MAXEXCLUSIVE"), tws0), |_| {
             NumericRange::MaxExclusive
         }),
     ))
@@ -1361,7 +1360,11 @@ fn boolean_literal(i: Span) -> IRes<ConcreteLiteral> {
 }
 
 fn boolean_value(i: Span) -> IRes<bool> {
-    alt((map(token_tws("true"), |_| true), map(token_tws("false"), |_| false))).parse(i)
+    alt((
+        map(delimited(tws0, keyword_token("true"), tws0), |_| true),
+        map(delimited(tws0, keyword_token("false"), tws0), |_| false),
+    ))
+    .parse(i)
 }
 
 /// `[65] rdfLiteral ::= langString | string ("^^" datatype)?`
@@ -2230,9 +2233,9 @@ fn one_if<'a, F: Fn(char) -> bool>(f: F) -> impl Fn(Span<'a>) -> IRes<'a, Span<'
     }
 }
 
-fn symbol(value: &str) -> impl FnMut(Span) -> IRes<()> {
+fn symbol<'a>(value: &'a str) -> impl FnMut(Span<'a>) -> IRes<'a, ()> {
     move |i| {
-        let (i, (_, _, _)) = (tws0, tag_no_case(value), tws0).parse(i)?;
+        let (i, (_, _, _)) = (tws0, keyword_token(value), tws0).parse(i)?;
         Ok((i, ()))
     }
 }
-- 
2.43.0


From 7d605c95f96a58ed51ab1d3b2fad372b1b46ff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:12 +0000
Subject: [PATCH 62/99] fix: show information of nodes to depth 0

---
 rudof_lib/src/api/data/implementations/show_node_info.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rudof_lib/src/api/data/implementations/show_node_info.rs b/rudof_lib/src/api/data/implementations/show_node_info.rs
index 99a7ab1..67a406e 100644
--- a/rudof_lib/src/api/data/implementations/show_node_info.rs
+++ b/rudof_lib/src/api/data/implementations/show_node_info.rs
@@ -102,7 +102,7 @@ fn collect_outgoing_arcs_recursive<S: NeighsRDF>(
     depth: usize,
 ) -> Result<HashMap<S::IRI, Vec<OutgoingNeighsNode<S>>>> {
     // Base case: depth 1 means no recursion
-    if depth == 1 {
+    if depth <= 1 {
         return Ok(collect_outgoing_arcs(rdf, subject, predicates)?
             .into_iter()
             .map(|(predicate, terms)| {
@@ -194,7 +194,7 @@ fn collect_incoming_arcs_recursive<S: NeighsRDF>(
     depth: usize,
 ) -> Result<HashMap<S::IRI, Vec<IncomingNeighsNode<S>>>> {
     // Base case: depth 1 means no recursion
-    if depth == 1 {
+    if depth <= 1 {
         let incoming_arcs = collect_incoming_arcs(rdf, subject)?;
         return Ok(incoming_arcs
             .into_iter()
-- 
2.43.0


From 73bd10db2b8752d6d3ab19c5d60d3fd19d594840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:12 +0000
Subject: [PATCH 63/99] fix: show triple terms instead of failing on them

---
 rudof_rdf/src/rdf_core/term/triple.rs         | 24 +++++++++++++++----
 rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs   |  7 +++++-
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs  |  7 +++++-
 .../src/rdf_impl/qlever/graph_container.rs    |  7 +++++-
 shex_validation/src/engine.rs                 |  2 +-
 sparql_service/src/srdf_data/rdf_data.rs      |  7 +++++-
 6 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/triple.rs b/rudof_rdf/src/rdf_core/term/triple.rs
index 94a217e..8e9a720 100644
--- a/rudof_rdf/src/rdf_core/term/triple.rs
+++ b/rudof_rdf/src/rdf_core/term/triple.rs
@@ -386,7 +386,16 @@ impl From<Object> for oxrdf::Term {
             Object::Iri(iri_s) => oxrdf::NamedNode::new_unchecked(iri_s.as_str()).into(),
             Object::BlankNode(bnode) => oxrdf::BlankNode::new_unchecked(bnode).into(),
             Object::Literal(literal) => oxrdf::Term::Literal(literal.into()),
-            Object::Triple { .. } => todo!(),
+            Object::Triple {
+                subject,
+                predicate,
+                object,
+            } => oxrdf::Triple::new(
+                oxrdf::NamedOrBlankNode::from(*subject),
+                oxrdf::NamedNode::new_unchecked(predicate.as_str()),
+                oxrdf::Term::from(*object),
+            )
+            .into(),
         }
     }
 }
@@ -437,8 +446,9 @@ impl TryFrom<Object> for oxrdf::NamedOrBlankNode {
         match value {
             Object::Iri(iri_s) => Ok(oxrdf::NamedNode::new_unchecked(iri_s.as_str()).into()),
             Object::BlankNode(bnode) => Ok(oxrdf::BlankNode::new_unchecked(bnode).into()),
-            Object::Literal(_) => todo!(),
-            Object::Triple { .. } => todo!(),
+            Object::Literal(_) | Object::Triple { .. } => Err(RDFError::TermAsSubject {
+                term: value.to_string(),
+            }),
         }
     }
 }
@@ -474,13 +484,17 @@ impl Display for Object {
     /// - IRIs: displayed as-is
     /// - Blank nodes: prefixed with "_:"
     /// - Literals: uses the literal's Display implementation
-    /// - Triples: not yet implemented
+    /// - Triples: the components between `<<(` and `)>>`
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
             Object::Iri(iri) => write!(f, "{iri}"),
             Object::BlankNode(bnode) => write!(f, "_:{bnode}"),
             Object::Literal(lit) => write!(f, "{lit}"),
-            Object::Triple { .. } => todo!(),
+            Object::Triple {
+                subject,
+                predicate,
+                object,
+            } => write!(f, "<<( {subject} {predicate} {object} )>>"),
         }
     }
 }
diff --git a/rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs b/rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs
index 5edaaa3..e2d0073 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs
@@ -474,7 +474,12 @@ impl Rdf for OxigraphEndpoint {
             OxTerm::BlankNode(bn) => self.show_blanknode(bn),
             OxTerm::Literal(lit) => self.show_literal(lit),
             OxTerm::NamedNode(n) => self.qualify_iri(n),
-            OxTerm::Triple(_) => unimplemented!("Triple terms not yet supported"),
+            OxTerm::Triple(triple) => format!(
+                "<<( {} {} {} )>>",
+                self.qualify_subject(&triple.subject),
+                self.qualify_iri(&triple.predicate),
+                self.qualify_term(&triple.object)
+            ),
         }
     }
 
diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index 215de91..f5c2acb 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -793,7 +793,12 @@ impl Rdf for OxigraphInMemory {
             OxTerm::BlankNode(bn) => self.show_blanknode(bn),
             OxTerm::Literal(lit) => self.show_literal(lit),
             OxTerm::NamedNode(n) => self.qualify_iri(n),
-            OxTerm::Triple(_) => unimplemented!("RDF-star triples not yet supported"),
+            OxTerm::Triple(triple) => format!(
+                "<<( {} {} {} )>>",
+                self.qualify_subject(&triple.subject),
+                self.qualify_iri(&triple.predicate),
+                self.qualify_term(&triple.object)
+            ),
         }
     }
 
diff --git a/rudof_rdf/src/rdf_impl/qlever/graph_container.rs b/rudof_rdf/src/rdf_impl/qlever/graph_container.rs
index 8f2e223..3b08eca 100644
--- a/rudof_rdf/src/rdf_impl/qlever/graph_container.rs
+++ b/rudof_rdf/src/rdf_impl/qlever/graph_container.rs
@@ -242,7 +242,12 @@ impl Rdf for QleverGraphContainer {
             OxTerm::BlankNode(bn) => self.show_blanknode(bn),
             OxTerm::Literal(lit) => self.show_literal(lit),
             OxTerm::NamedNode(n) => self.qualify_iri(n),
-            OxTerm::Triple(_) => unimplemented!("Triple terms not yet supported"),
+            OxTerm::Triple(triple) => format!(
+                "<<( {} {} {} )>>",
+                self.qualify_subject(&triple.subject),
+                self.qualify_iri(&triple.predicate),
+                self.qualify_term(&triple.object)
+            ),
         }
     }
 
diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index ad62936..cc42d47 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -1628,7 +1628,7 @@ impl Engine {
                 let term: S::Term = lit.into();
                 term
             },
-            Object::Triple { .. } => todo!(),
+            triple @ Object::Triple { .. } => triple.clone().into(),
         }
     }
 
diff --git a/sparql_service/src/srdf_data/rdf_data.rs b/sparql_service/src/srdf_data/rdf_data.rs
index 4972695..67d5aad 100644
--- a/sparql_service/src/srdf_data/rdf_data.rs
+++ b/sparql_service/src/srdf_data/rdf_data.rs
@@ -344,7 +344,12 @@ impl Rdf for RdfData {
             OxTerm::BlankNode(bn) => self.show_blanknode(bn),
             OxTerm::Literal(lit) => self.show_literal(lit),
             OxTerm::NamedNode(n) => self.qualify_iri(n),
-            OxTerm::Triple(_) => unimplemented!(),
+            OxTerm::Triple(triple) => format!(
+                "<<( {} {} {} )>>",
+                self.qualify_subject(&triple.subject),
+                self.qualify_iri(&triple.predicate),
+                self.qualify_term(&triple.object)
+            ),
         }
     }
 
-- 
2.43.0


From be92adcd9f7ae2e535be9f880724ba984c1cef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:12 +0000
Subject: [PATCH 64/99] fix: report escapes that are not code points in ShExC
 and shape maps

---
 shex_ast/src/compact/located_parse_error.rs |  8 ++++-
 shex_ast/src/compact/shex_grammar.rs        | 33 +++++++++++++--------
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/shex_ast/src/compact/located_parse_error.rs b/shex_ast/src/compact/located_parse_error.rs
index e3584fd..4347e1d 100644
--- a/shex_ast/src/compact/located_parse_error.rs
+++ b/shex_ast/src/compact/located_parse_error.rs
@@ -1,4 +1,4 @@
-use crate::{Span, shex_parser_error::ParseError as ShExParseError};
+use crate::{Span, compact::shex_grammar::UCharError, shex_parser_error::ParseError as ShExParseError};
 use nom::error::{ErrorKind, FromExternalError};
 use rudof_rdf::rdf_core::RDFError;
 use std::{
@@ -79,6 +79,12 @@ impl FromExternalError<Span<'_>, ParseFloatError> for LocatedParseError {
     }
 }
 
+impl FromExternalError<Span<'_>, UCharError> for LocatedParseError {
+    fn from_external_error(input: Span, _kind: ErrorKind, e: UCharError) -> Self {
+        ShExParseError::SyntaxError(e.to_string()).at(input)
+    }
+}
+
 impl FromExternalError<Span<'_>, RDFError> for LocatedParseError {
     fn from_external_error(input: Span, _kind: ErrorKind, e: RDFError) -> Self {
         ShExParseError::RDFError(e).at(input)
diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index f517051..a48aefe 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -1507,13 +1507,14 @@ const REQUIRES_ESCAPE_SINGLE_QUOTE: &str = "\u{27}\u{5C}\u{0A}\u{0D}";
 /// `[26t] <UCHAR> ::= "\\u" HEX HEX HEX HEX`
 /// `          | "\\U" HEX HEX HEX HEX HEX HEX HEX HEX`
 fn uchar(i: Span) -> IRes<char> {
-    let (i, str) = recognize(alt((
-        preceded(token(r"\u"), count(hex, 4)),
-        preceded(token(r"\U"), count(hex, 8)),
-    )))
-    .parse(i)?;
-    let c = unescape_uchar(str.fragment()).unwrap();
-    Ok((i, c))
+    map_res(
+        recognize(alt((
+            preceded(token(r"\u"), count(hex, 4)),
+            preceded(token(r"\U"), count(hex, 8)),
+        ))),
+        |str: Span| unescape_uchar(str.fragment()),
+    )
+    .parse(i)
 }
 
 /// `[160s] <ECHAR> ::= "\\" [tbnrf\\\"\\']`
@@ -2047,7 +2048,7 @@ fn iri_char(i: Span) -> IRes<char> {
 }
 
 #[derive(Error, Debug)]
-enum UCharError {
+pub(crate) enum UCharError {
     #[error("Doesn't start by \\")]
     NoStartByBackSlash,
 
@@ -2062,6 +2063,16 @@ enum UCharError {
 
     #[error("No character after \\")]
     NoCharAfterBackSlash,
+
+    #[error("{code} is not the code of a character")]
+    NotACodePoint { code: String },
+}
+
+fn code_point(code: &str) -> Result<char, UCharError> {
+    u32::from_str_radix(code, 16)
+        .ok()
+        .and_then(char::from_u32)
+        .ok_or_else(|| UCharError::NotACodePoint { code: code.to_string() })
 }
 
 fn unescape_uchar(str: &str) -> Result<char, UCharError> {
@@ -2082,8 +2093,7 @@ fn unescape_uchar(str: &str) -> Result<char, UCharError> {
                     }
                 }
 
-                let u = u32::from_str_radix(&s, 16).unwrap();
-                r = char::from_u32(u).unwrap();
+                r = code_point(&s)?;
             },
             Some('U') => {
                 let mut s = String::new();
@@ -2095,8 +2105,7 @@ fn unescape_uchar(str: &str) -> Result<char, UCharError> {
                     }
                 }
 
-                let u = u32::from_str_radix(&s, 16).unwrap();
-                r = char::from_u32(u).unwrap();
+                r = code_point(&s)?;
             },
             Some(c) => return Err(UCharError::UnexpectedCharacterAfterBackSlash { c }),
             None => return Err(UCharError::NoCharAfterBackSlash),
-- 
2.43.0


From f1b5c337e2ba6be79397fe158d159b3fdc7800b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:12 +0000
Subject: [PATCH 65/99] fix: report what conversions of shapes do not support

---
 .../implementations/show_schema_conversion.rs |  1 -
 shapes_comparator/src/coshamo_converter.rs    |  4 +-
 shapes_converter/src/lib.rs                   |  2 +-
 .../src/shacl_to_shex/shacl2shex.rs           | 53 ++++++-------------
 .../src/shex_to_html/cardinality.rs           |  4 +-
 .../src/shex_to_html/shex2html.rs             | 10 ++--
 .../src/shex_to_sparql/shex2sparql.rs         | 37 +++++++------
 shapes_converter/src/shex_to_uml/shex2uml.rs  | 16 +++---
 8 files changed, 53 insertions(+), 74 deletions(-)

diff --git a/rudof_lib/src/api/conversion/implementations/show_schema_conversion.rs b/rudof_lib/src/api/conversion/implementations/show_schema_conversion.rs
index e7c7ff0..9572ee1 100644
--- a/rudof_lib/src/api/conversion/implementations/show_schema_conversion.rs
+++ b/rudof_lib/src/api/conversion/implementations/show_schema_conversion.rs
@@ -408,7 +408,6 @@ fn show_schema_conversion_shacl_to_shex<W: io::Write>(
         })?;
 
     let shex_schema = InputSpec::Str(converter.current_shex().to_string());
-    println!("Generated ShEx schema:\n{}", converter.current_shex());
     load_shex_schema(
         rudof,
         &shex_schema,
diff --git a/shapes_comparator/src/coshamo_converter.rs b/shapes_comparator/src/coshamo_converter.rs
index ebb93d9..c9a4f52 100644
--- a/shapes_comparator/src/coshamo_converter.rs
+++ b/shapes_comparator/src/coshamo_converter.rs
@@ -130,7 +130,9 @@ impl CoShaMoConverter {
                     .add_constraint(&iri_s, ValueDescription::new(predicate));
                 Ok(())
             },
-            TripleExpr::Ref(_) => todo!(),
+            TripleExpr::Ref(_) => Err(ComparatorError::NotImplemented {
+                feature: "Ref".to_string(),
+            }),
         }
     }
 
diff --git a/shapes_converter/src/lib.rs b/shapes_converter/src/lib.rs
index 96179c7..086f9fa 100755
--- a/shapes_converter/src/lib.rs
+++ b/shapes_converter/src/lib.rs
@@ -56,7 +56,7 @@ pub fn find_annotation(
 
 fn object_value2string(object_value: &ObjectValue) -> String {
     match object_value {
-        ObjectValue::IriRef(_) => todo!(),
+        ObjectValue::IriRef(iri) => iri.to_string(),
         ObjectValue::Literal(lit) => lit.lexical_form(),
     }
 }
diff --git a/shapes_converter/src/shacl_to_shex/shacl2shex.rs b/shapes_converter/src/shacl_to_shex/shacl2shex.rs
index 28bd3ae..1589bd8 100644
--- a/shapes_converter/src/shacl_to_shex/shacl2shex.rs
+++ b/shapes_converter/src/shacl_to_shex/shacl2shex.rs
@@ -62,7 +62,7 @@ impl Shacl2ShEx {
             Object::Iri(iri) => Ok(ShapeExprLabel::iri(iri.clone())),
             Object::BlankNode(bn) => Ok(ShapeExprLabel::bnode(BNode::new(bn))),
             Object::Literal(lit) => Err(Shacl2ShExError::RDFNode2LabelLiteral { literal: lit.clone() }),
-            Object::Triple { .. } => todo!(),
+            Object::Triple { .. } => Err(Shacl2ShExError::not_implemented("shapes identified by triple terms")),
         }
     }
 
@@ -70,7 +70,9 @@ impl Shacl2ShEx {
         let mut exprs = Vec::new();
         for node in shape.property_shapes() {
             match schema.get_shape_from_idx(node) {
-                None => todo!(),
+                None => Err(Shacl2ShExError::not_implemented(
+                    "property shapes that are not in the schema",
+                )),
                 Some(shape) => match shape {
                     IRShape::PropertyShape(ps) => {
                         let tc = self.property_shape2triple_constraint(ps)?;
@@ -137,18 +139,18 @@ impl Shacl2ShEx {
                     Object::Literal(lit) => {
                         Err(Shacl2ShExError::UnexpectedLiteralForTargetClass { literal: lit.clone() })
                     },
-                    Object::Triple { .. } => todo!(),
+                    Object::Triple { .. } => Err(Shacl2ShExError::not_implemented("triple terms as target classes")),
                 }?;
                 Ok(Some(value_set_value))
             },
             Target::SubjectsOf(_) => Ok(None),
             Target::ObjectsOf(_) => Ok(None),
             Target::ImplicitClass(_) => Ok(None),
-            Target::WrongNode(_) => todo!(),
-            Target::WrongClass(_) => todo!(),
-            Target::WrongSubjectsOf(_) => todo!(),
-            Target::WrongObjectsOf(_) => todo!(),
-            Target::WrongImplicitClass(_) => todo!(),
+            Target::WrongNode(_)
+            | Target::WrongClass(_)
+            | Target::WrongSubjectsOf(_)
+            | Target::WrongObjectsOf(_)
+            | Target::WrongImplicitClass(_) => Err(Shacl2ShExError::not_implemented("ill-formed targets")),
         }
     }
 
@@ -299,9 +301,7 @@ impl Shacl2ShEx {
         let rdf_type = IriRef::iri(IriS::rdf_type());
         let value = match cls {
             Object::Iri(iri) => ValueSetValue::iri(IriRef::iri(iri.clone())),
-            Object::BlankNode(_) => todo!(),
-            Object::Literal(_) => todo!(),
-            Object::Triple { .. } => todo!(),
+            _ => return Err(Shacl2ShExError::not_implemented("classes that are not IRIs")),
         };
         let cls = NodeConstraint::new().with_values(vec![value]);
         let te = TripleExpr::triple_constraint(None, None, rdf_type, Some(ShapeExpr::node_constraint(cls)), None, None);
@@ -319,43 +319,20 @@ impl Shacl2ShEx {
             IRComponent::Datatype(dt) => Ok(ShapeExpr::node_constraint(
                 NodeConstraint::new().with_datatype(dt.datatype().clone().into()),
             )),
-            IRComponent::NodeKind(_) => todo!(),
-            IRComponent::MinCount(_) => todo!(),
-            IRComponent::MaxCount(_) => todo!(),
-            IRComponent::MinExclusive(_) => todo!(),
-            IRComponent::MaxExclusive(_) => todo!(),
-            IRComponent::MinInclusive(_) => todo!(),
-            IRComponent::MaxInclusive(_) => todo!(),
-            IRComponent::MinLength(_) => todo!(),
-            IRComponent::MaxLength(_) => todo!(),
-            IRComponent::Pattern(_) => todo!(),
-            IRComponent::UniqueLang(_) => todo!(),
-            IRComponent::LanguageIn(_) => todo!(),
-            IRComponent::Equals(_) => todo!(),
-            IRComponent::Disjoint(_) => todo!(),
-            IRComponent::LessThan(_) => todo!(),
-            IRComponent::LessThanOrEquals(_) => todo!(),
             IRComponent::Or(_) => {
                 debug!("Not implemented OR Shapes");
                 Ok(ShapeExpr::empty_shape())
             },
-            IRComponent::And(_) => todo!(),
-            IRComponent::Not(_) => todo!(),
-            IRComponent::Xone(_) => todo!(),
-            IRComponent::Closed(_) => todo!(),
-            IRComponent::Node(_) => todo!(),
-            IRComponent::HasValue(_) => todo!(),
-            IRComponent::In(_) => todo!(),
-            IRComponent::QualifiedValueShape(_) => todo!(),
-            IRComponent::Deactivated(_) => todo!(),
-            IRComponent::BasicSparql(_) => todo!(),
+            component => Err(Shacl2ShExError::not_implemented(&format!(
+                "conversion of component {component}"
+            ))),
         }
     }
 
     pub fn shacl_path2predicate(&self, path: &SHACLPath) -> Result<IriRef, Shacl2ShExError> {
         match path {
             SHACLPath::Predicate { pred } => Ok(IriRef::iri(pred.clone())),
-            _ => todo!(),
+            path => Err(Shacl2ShExError::not_implemented(&format!("conversion of path {path}"))),
         }
     }
 }
diff --git a/shapes_converter/src/shex_to_html/cardinality.rs b/shapes_converter/src/shex_to_html/cardinality.rs
index dfbd997..473bb45 100644
--- a/shapes_converter/src/shex_to_html/cardinality.rs
+++ b/shapes_converter/src/shex_to_html/cardinality.rs
@@ -23,8 +23,8 @@ impl Serialize for Cardinality {
             Cardinality::Star => serializer.serialize_str("Zero or more"),
             Cardinality::Plus => serializer.serialize_str("One or more"),
             Cardinality::Optional => serializer.serialize_str("Zero or one (optional)"),
-            Cardinality::Range(_, _) => todo!(),
-            Cardinality::Fixed(_) => todo!(),
+            Cardinality::Range(min, max) => serializer.serialize_str(&format!("Between {min} and {max}")),
+            Cardinality::Fixed(n) => serializer.serialize_str(&format!("Exactly {n}")),
         }
     }
 }
diff --git a/shapes_converter/src/shex_to_html/shex2html.rs b/shapes_converter/src/shex_to_html/shex2html.rs
index 3b0450c..bfa8a3b 100644
--- a/shapes_converter/src/shex_to_html/shex2html.rs
+++ b/shapes_converter/src/shex_to_html/shex2html.rs
@@ -149,8 +149,10 @@ impl ShEx2Html {
     fn shape_label2name(&mut self, label: &ShapeExprLabel, prefixmap: &PrefixMap) -> Result<Name, ShEx2HtmlError> {
         match label {
             ShapeExprLabel::IriRef { value } => iri_ref2name(value, &self.config, &None, prefixmap),
-            ShapeExprLabel::BNode { value: _ } => todo!(),
-            ShapeExprLabel::Start => todo!(),
+            ShapeExprLabel::BNode { value: _ } => {
+                Err(ShEx2HtmlError::not_implemented("shapes labelled by blank nodes"))
+            },
+            ShapeExprLabel::Start => Err(ShEx2HtmlError::not_implemented("references to the start shape")),
         }
     }
 
@@ -242,7 +244,7 @@ impl ShEx2Html {
                                     },
                                 }
                             },
-                            _ => todo!(),
+                            _ => return Err(ShEx2HtmlError::not_implemented("nested triple expressions")),
                         }
                     }
                     Ok(())
@@ -254,7 +256,7 @@ impl ShEx2Html {
                     max: _,
                     sem_acts: _,
                     annotations: _,
-                } => todo!(),
+                } => Err(ShEx2HtmlError::not_implemented("alternatives of triple expressions")),
                 TripleExpr::TripleConstraint {
                     id: _,
                     negated: _,
diff --git a/shapes_converter/src/shex_to_sparql/shex2sparql.rs b/shapes_converter/src/shex_to_sparql/shex2sparql.rs
index 2c434bb..b64bc35 100644
--- a/shapes_converter/src/shex_to_sparql/shex2sparql.rs
+++ b/shapes_converter/src/shex_to_sparql/shex2sparql.rs
@@ -78,7 +78,7 @@ fn shape_expr2patterns(
             Err(ShEx2SparqlError::not_implemented(msg.as_str()))
         },
         ShapeExpr::Shape(s) => {
-            shape2patterns(s, &mut ps, config, schema, var_builder);
+            shape2patterns(s, &mut ps, config, schema, var_builder)?;
             Ok(ps)
         },
         ShapeExpr::External => Err(ShEx2SparqlError::not_implemented("ShapeExternal")),
@@ -101,11 +101,12 @@ fn shape2patterns(
     config: &ShEx2SparqlConfig,
     schema: &Schema,
     var_builder: &mut VarBuilder,
-) {
+) -> Result<(), ShEx2SparqlError> {
     // Maybe add triples for extra?
     if let Some(expr) = s.triple_expr() {
-        triple_expr2patterns(&expr, ps, config, schema, var_builder)
+        triple_expr2patterns(&expr, ps, config, schema, var_builder)?;
     }
+    Ok(())
 }
 
 fn triple_expr2patterns(
@@ -114,32 +115,34 @@ fn triple_expr2patterns(
     config: &ShEx2SparqlConfig,
     schema: &Schema,
     var_builder: &mut VarBuilder,
-) {
+) -> Result<(), ShEx2SparqlError> {
     match te {
         TripleExpr::EachOf { expressions, .. } => {
             for tew in expressions {
-                triple_expr2patterns(&tew.te, ps, config, schema, var_builder)
+                triple_expr2patterns(&tew.te, ps, config, schema, var_builder)?
             }
+            Ok(())
         },
         TripleExpr::OneOf { expressions, .. } => {
             for tew in expressions {
-                triple_expr2patterns(&tew.te, ps, config, schema, var_builder)
+                triple_expr2patterns(&tew.te, ps, config, schema, var_builder)?
             }
+            Ok(())
         },
         TripleExpr::TripleConstraint { inverse, predicate, .. } => {
             // TODO: check min and max cardinalities
-            if let Some(true) = inverse {
-                todo!()
+            // TODO: check if value_expr is a single valuevalueset
+            let this = Var::new(config.this_variable_name.as_str());
+            let other = var_from_predicate(predicate, schema, var_builder);
+            let tp = if let Some(true) = inverse {
+                TriplePattern::new(&other, predicate, &this)
             } else {
-                // TODO: check if value_expr is a single valuevalueset
-                let subj = Var::new(config.this_variable_name.as_str());
-                let pred = predicate;
-                let obj = var_from_predicate(predicate, schema, var_builder);
-                let tp = TriplePattern::new(&subj, pred, &obj);
-                ps.push(tp)
-            }
+                TriplePattern::new(&this, predicate, &other)
+            };
+            ps.push(tp);
+            Ok(())
         },
-        TripleExpr::Ref(_) => todo!(),
+        TripleExpr::Ref(_) => Err(ShEx2SparqlError::not_implemented("references to triple expressions")),
     }
 }
 
@@ -151,7 +154,7 @@ fn var_from_predicate(predicate: &IriRef, schema: &Schema, var_builder: &mut Var
                 if let Some(local) = prefixmap.qualify_local(iri) {
                     Var::new(local.as_str())
                 } else {
-                    todo!()
+                    Var::new_from_iri(iri, var_builder)
                 }
             },
         },
diff --git a/shapes_converter/src/shex_to_uml/shex2uml.rs b/shapes_converter/src/shex_to_uml/shex2uml.rs
index 12e87b2..0293695 100644
--- a/shapes_converter/src/shex_to_uml/shex2uml.rs
+++ b/shapes_converter/src/shex_to_uml/shex2uml.rs
@@ -163,14 +163,8 @@ impl ShEx2Uml {
                                     },
                                 }
                             },
-                            TripleExpr::EachOf { .. } => {
-                                todo!()
-                            },
-                            TripleExpr::OneOf { .. } => {
-                                todo!()
-                            },
-                            TripleExpr::Ref(_) => {
-                                todo!()
+                            TripleExpr::EachOf { .. } | TripleExpr::OneOf { .. } | TripleExpr::Ref(_) => {
+                                return Err(ShEx2UmlError::not_implemented("nested triple expressions"));
                             },
                         }
                     }
@@ -183,7 +177,7 @@ impl ShEx2Uml {
                     sem_acts: _,
                     annotations: _,
                 } => {
-                    todo!()
+                    return Err(ShEx2UmlError::not_implemented("alternatives of triple expressions"));
                 },
                 TripleExpr::TripleConstraint {
                     id: _,
@@ -211,7 +205,9 @@ impl ShEx2Uml {
                         },
                     }
                 },
-                TripleExpr::Ref(_) => todo!(),
+                TripleExpr::Ref(_) => {
+                    return Err(ShEx2UmlError::not_implemented("references to triple expressions"));
+                },
             }
             Ok(UmlComponent::class(uml_class))
         } else {
-- 
2.43.0


From b4d9159b36f821f25a6a5aeed8b6e6d24d5c2d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:12 +0000
Subject: [PATCH 66/99] fix: report terms that are not what SHACL shapes need

---
 rudof_rdf/src/rdf_core/rdf.rs  | 15 ++++-----------
 shacl/src/rdf/parsers/utils.rs |  6 +++---
 2 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/rdf.rs b/rudof_rdf/src/rdf_core/rdf.rs
index f5a7d3d..e280a6c 100644
--- a/rudof_rdf/src/rdf_core/rdf.rs
+++ b/rudof_rdf/src/rdf_core/rdf.rs
@@ -315,17 +315,10 @@ pub trait Rdf: Sized {
     ///
     /// Returns `RDFError::TermAsLang` if the term is not a language-tagged literal.
     fn term_as_lang(term: &Self::Term) -> std::result::Result<Lang, RDFError> {
-        if term.is_blank_node() {
-            Err(RDFError::TermAsLang { term: term.to_string() })
-        } else if let Ok(literal) = Self::term_as_literal(term) {
-            let lang = Lang::new(literal.lexical_form());
-            match lang {
-                Ok(lang) => Ok(lang),
-                Err(_) => todo!(),
-            }
-        } else {
-            todo!()
-        }
+        Self::term_as_literal(term)
+            .ok()
+            .and_then(|literal| Lang::new(literal.lexical_form()).ok())
+            .ok_or_else(|| RDFError::TermAsLang { term: term.to_string() })
     }
 
     /// Compares two terms according to SPARQL ordering semantics.
diff --git a/shacl/src/rdf/parsers/utils.rs b/shacl/src/rdf/parsers/utils.rs
index c84e1de..c5ba9bf 100644
--- a/shacl/src/rdf/parsers/utils.rs
+++ b/shacl/src/rdf/parsers/utils.rs
@@ -46,8 +46,8 @@ pub(crate) fn term_to_value<RDF: Rdf>(term: &RDF::Term, msg: &str) -> Result<Val
         })?;
         Ok(Value::Literal(slit))
     } else {
-        // TODO - return error?
-        println!("Unexpected code in term_to_value: {term}: {msg}");
-        todo!()
+        Err(RDFError::DefaultError {
+            msg: format!("Unexpected term {term}: {msg}"),
+        })
     }
 }
-- 
2.43.0


From 9f6258575826608a53da5d90e0b73625c4d1756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:12 +0000
Subject: [PATCH 67/99] fix: resolve imports with prefixes and bases

---
 shex_ast/src/ast/iri_or_str.rs      | 5 ++++-
 shex_ast/src/compact/shex_parser.rs | 1 +
 shex_ast/src/ir/ast2ir.rs           | 6 +++---
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/shex_ast/src/ast/iri_or_str.rs b/shex_ast/src/ast/iri_or_str.rs
index af5f2fc..1ff97ae 100644
--- a/shex_ast/src/ast/iri_or_str.rs
+++ b/shex_ast/src/ast/iri_or_str.rs
@@ -43,7 +43,10 @@ impl IriOrStr {
                     None => Ok(iri_s.clone()),
                     Some(base_iri) => base_iri.resolve_str(iri_s.as_str()),
                 },
-                IriRef::Prefixed { prefix: _, local: _ } => todo!(),
+                IriRef::Prefixed { prefix, local } => Err(IriSError::IriParseError {
+                    str: format!("{prefix}:{local}"),
+                    error: "prefixed names must be resolved before".to_string(),
+                }),
             },
         }
     }
diff --git a/shex_ast/src/compact/shex_parser.rs b/shex_ast/src/compact/shex_parser.rs
index 7277b21..fdb05ab 100644
--- a/shex_ast/src/compact/shex_parser.rs
+++ b/shex_ast/src/compact/shex_parser.rs
@@ -57,6 +57,7 @@ impl ShExParser<'_> {
                     schema = schema.with_start(Some(shape_expr))
                 },
                 ShExStatement::ImportDecl { iri } => {
+                    let iri = iri.deref_iri(schema.base().as_ref(), schema.prefixmap().as_ref())?;
                     schema = schema.with_import(iri);
                 },
                 ShExStatement::ShapeDecl {
diff --git a/shex_ast/src/ir/ast2ir.rs b/shex_ast/src/ir/ast2ir.rs
index 178cb06..8d2a0af 100644
--- a/shex_ast/src/ir/ast2ir.rs
+++ b/shex_ast/src/ir/ast2ir.rs
@@ -1399,9 +1399,9 @@ pub fn get_schema_from_iri(
             })?;
             Ok(schema)
         },
-        ShExFormat::RDFFormat(_) => {
-            todo!()
-        },
+        ShExFormat::RDFFormat(_) => Err(Box::new(SchemaIRError::ImportIriError {
+            error: format!("{iri}: schemas in {format} cannot be imported yet"),
+        })),
     }
 }
 
-- 
2.43.0


From 8a275e9c0fbf5170b20eacb2da914bb11cdcff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:12 +0000
Subject: [PATCH 68/99] fix: require the exclusions of literal stem ranges as
 those of other ranges

---
 shex_ast/src/ast/value_set_value.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/shex_ast/src/ast/value_set_value.rs b/shex_ast/src/ast/value_set_value.rs
index 2b628d2..7eff6e7 100644
--- a/shex_ast/src/ast/value_set_value.rs
+++ b/shex_ast/src/ast/value_set_value.rs
@@ -603,9 +603,7 @@ impl<'de> Deserialize<'de> for ValueSetValue {
                                     exclusions: Some(lit_excs),
                                 })
                             },
-                            None => {
-                                todo!()
-                            },
+                            None => Err(de::Error::missing_field("exclusions")),
                         },
                         None => Err(de::Error::missing_field("stem")),
                     },
-- 
2.43.0


From 6793e91586cb92866db76c91e32adaf918d47cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:12 +0000
Subject: [PATCH 69/99] fix: report literals where service descriptions need
 nodes

---
 .../src/service_description_parser.rs         | 57 ++++++-------------
 1 file changed, 18 insertions(+), 39 deletions(-)

diff --git a/sparql_service/src/service_description_parser.rs b/sparql_service/src/service_description_parser.rs
index 0bf9c0a..464b38a 100644
--- a/sparql_service/src/service_description_parser.rs
+++ b/sparql_service/src/service_description_parser.rs
@@ -242,18 +242,11 @@ where
     RDF::Term: TryInto<IriOrBlankNode> + From<IriOrBlankNode> + Clone,
     <RDF::Term as TryInto<IriOrBlankNode>>::Error: Debug,
 {
-    FocusParser::new().then(|focus: RDF::Term| {
-        let focus_clone = focus.clone();
-        named_graph()
-            .map_property(sd_named_graph().clone())
-            .map(move |named_graphs| {
-                let iri_or_blank: IriOrBlankNode = focus_clone
-                    .clone()
-                    .try_into()
-                    .expect("Failed to convert Term to IriOrBlankNode");
-                GraphCollection::new(&iri_or_blank).with_collection(named_graphs.into_iter())
-            })
-    })
+    IriOrBlankNodeParser::new()
+        .and(named_graph().map_property(sd_named_graph().clone()))
+        .map(|(iri_or_blank, named_graphs)| {
+            GraphCollection::new(&iri_or_blank).with_collection(named_graphs.into_iter())
+        })
 }
 
 pub fn default_dataset<RDF>(node: RDF::Term) -> impl RDFNodeParse<RDF, Output = Dataset>
@@ -353,16 +346,11 @@ where
     <RDF::Term as TryInto<IriOrBlankNode>>::Error: Debug,
 {
     trace!("parsing named_graph_description with focus");
-    let focus_clone = focus.clone();
     SetFocusParser::new(focus).with(
-        FocusParser::new()
+        IriOrBlankNodeParser::new()
             .and(name())
             .and(graph().map_property(sd_graph().clone()))
-            .map(move |((_, name), graphs)| {
-                let focus_iri: IriOrBlankNode = focus_clone
-                    .clone()
-                    .try_into()
-                    .expect("Failed to convert Term to IriOrBlankNode");
+            .map(|((focus_iri, name), graphs)| {
                 trace!(
                     "named_graph_description: focus={focus_iri}, name={name}, graphs={}",
                     graphs.len()
@@ -385,9 +373,8 @@ where
     RDF::Term: TryInto<IriOrBlankNode> + From<IriOrBlankNode> + Clone,
     <RDF::Term as TryInto<IriOrBlankNode>>::Error: Debug,
 {
-    FocusParser::new().then(|focus: RDF::Term| {
+    IriOrBlankNodeParser::new().then(|iri_or_blank| {
         trace!("Parsing graph at focus, parsing it...");
-        let iri_or_blank: IriOrBlankNode = focus.try_into().expect("Failed to convert Term to IriOrBlankNode");
         graph_description(iri_or_blank)
     })
 }
@@ -441,21 +428,14 @@ where
     <RDF::Term as TryInto<IriOrBlankNode>>::Error: Debug,
 {
     trace!("parsing class_partition");
-    FocusParser::new().then(move |focus: RDF::Term| {
-        let focus_clone = focus.clone();
-        SuccessParser::new(focus)
-            .and(SingleIriPropertyParser::new(void_class().clone()))
-            .and(property_partition().map_property(void_property().clone()))
-            .map(move |((_, class), property_partition)| {
-                let focus_iri: IriOrBlankNode = focus_clone
-                    .clone()
-                    .try_into()
-                    .expect("Failed to convert Term to IriOrBlankNode");
-                ClassPartition::new(&class)
-                    .with_id(&focus_iri)
-                    .with_property_partition(property_partition)
-            })
-    })
+    IriOrBlankNodeParser::new()
+        .and(SingleIriPropertyParser::new(void_class().clone()))
+        .and(property_partition().map_property(void_property().clone()))
+        .map(|((focus_iri, class), property_partition)| {
+            ClassPartition::new(&class)
+                .with_id(&focus_iri)
+                .with_property_partition(property_partition)
+        })
 }
 
 pub fn property_partition<RDF>() -> impl RDFNodeParse<RDF, Output = crate::PropertyPartition>
@@ -464,7 +444,7 @@ where
     RDF::Term: TryInto<IriOrBlankNode> + Clone,
     <RDF::Term as TryInto<IriOrBlankNode>>::Error: Debug,
 {
-    FocusParser::new()
+    IriOrBlankNodeParser::new()
         .and(SingleIriPropertyParser::new(void_property().clone()).map(|p| p.clone()))
         .and(
             SingleIntegerPropertyParser::new(void_triples().clone())
@@ -472,8 +452,7 @@ where
                 .map(|opt: Option<isize>| opt.map(|n| NumericLiteral::Integer(n as i128))),
         )
         .map(
-            |((focus, property), triples): ((RDF::Term, IriS), Option<NumericLiteral>)| {
-                let focus_iri: IriOrBlankNode = focus.try_into().expect("Failed to convert Term to IriOrBlankNode");
+            |((focus_iri, property), triples): ((IriOrBlankNode, IriS), Option<NumericLiteral>)| {
                 PropertyPartition::new(&property)
                     .with_id(&focus_iri)
                     .with_triples(triples)
-- 
2.43.0


From 62b853fda02c12230378ef614df9b44555676fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:12 +0000
Subject: [PATCH 70/99] fix: report formats that are not supported

---
 .../implementations/show_schema_comparison.rs        | 12 ++++++++----
 .../serialize_pgschema_validation_results.rs         |  4 +++-
 .../serialize_shacl_validation_results.rs            |  4 +++-
 .../src/api/shex/implementations/load_shapemap.rs    |  5 ++++-
 .../src/api/shex/implementations/load_shex_schema.rs |  6 +++++-
 .../api/shex/implementations/serialize_shapemap.rs   |  5 ++++-
 .../shex/implementations/serialize_shex_schema.rs    |  5 ++++-
 .../serialize_shex_validation_results.rs             |  5 ++++-
 rudof_lib/src/errors/comparison_error.rs             |  4 ++++
 9 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/rudof_lib/src/api/comparison/implementations/show_schema_comparison.rs b/rudof_lib/src/api/comparison/implementations/show_schema_comparison.rs
index f11ac07..3db7bda 100644
--- a/rudof_lib/src/api/comparison/implementations/show_schema_comparison.rs
+++ b/rudof_lib/src/api/comparison/implementations/show_schema_comparison.rs
@@ -123,7 +123,6 @@ fn get_coshamo<R: io::Read>(
     source_name: &str,
 ) -> Result<CoShaMo> {
     match mode {
-        ComparisonMode::Shacl => todo!("Not yet implemented comparison between SHACL files"),
         ComparisonMode::ShEx => {
             let shex = read_shex_only(reader, &(*format).into(), base, source_name)?;
             let mut converter = CoShaMoConverter::new(rudof.config.comparator());
@@ -136,8 +135,9 @@ fn get_coshamo<R: io::Read>(
                     })?;
             Ok(coshamo)
         },
-        ComparisonMode::Service => todo!("Not yet implemented comparison between SPARQL endpoints"),
-        ComparisonMode::Dctap => todo!("Not yet implemented comparison between DCTAP files"),
+        ComparisonMode::Shacl | ComparisonMode::Service | ComparisonMode::Dctap => {
+            Err(ComparisonError::NotImplementedComparison { mode: mode.to_string() })?
+        },
     }
 }
 
@@ -172,6 +172,10 @@ pub fn read_shex_only<R: io::Read>(reader: R, format: &ShExFormat, base: IriS, s
             })?;
             Ok(schema_json)
         },
-        _ => todo!("Not yet implemented reading ShEx from RDF files"),
+        _ => Err(ShExError::FailedParsingShExSchema {
+            error: "Reading ShEx from RDF files is not implemented yet".to_string(),
+            source_name: source_name.to_string(),
+            format: format.to_string(),
+        })?,
     }
 }
diff --git a/rudof_lib/src/api/pgschema/implementations/serialize_pgschema_validation_results.rs b/rudof_lib/src/api/pgschema/implementations/serialize_pgschema_validation_results.rs
index a4cafad..c92c776 100644
--- a/rudof_lib/src/api/pgschema/implementations/serialize_pgschema_validation_results.rs
+++ b/rudof_lib/src/api/pgschema/implementations/serialize_pgschema_validation_results.rs
@@ -30,7 +30,9 @@ pub fn serialize_pgschema_validation_results<W: io::Write>(
                 .map_err(|e| PgSchemaError::FailedIoOperation { error: e.to_string() })?;
         },
         ResultPgSchemaValidationFormat::Details => {
-            todo!("Implement details format for Property Graph schema validation results serialization");
+            return Err(PgSchemaError::FailedIoOperation {
+                error: "Property Graph schema validation results have no details format".to_string(),
+            })?;
         },
     }
 
diff --git a/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs b/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs
index c7f7de2..656ad14 100644
--- a/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs
+++ b/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs
@@ -39,7 +39,9 @@ pub fn serialize_shacl_validation_results<W: io::Write>(
                 .map_err(|e| ShaclError::FailedIoOperation { error: e.to_string() })?;
         },
         ResultShaclValidationFormat::Json => {
-            todo!("Generation of JSON for SHACL validation report is not implemented yet")
+            return Err(ShaclError::FailedIoOperation {
+                error: "Generation of JSON for SHACL validation report is not implemented yet".to_string(),
+            })?;
         },
         _ => {
             serialize_shacl_validation_results_rdf(
diff --git a/rudof_lib/src/api/shex/implementations/load_shapemap.rs b/rudof_lib/src/api/shex/implementations/load_shapemap.rs
index 54f6cad..6906b73 100644
--- a/rudof_lib/src/api/shex/implementations/load_shapemap.rs
+++ b/rudof_lib/src/api/shex/implementations/load_shapemap.rs
@@ -29,7 +29,10 @@ pub fn load_shapemap(
             rudof.shapemap = Some(shapemap);
         },
         _ => {
-            todo!("ShapeMap format {:?} not yet implemented", shapemap_format);
+            return Err(ShExError::FailedParsingShapeMap {
+                source_name: shapemap.source_name(),
+                error: format!("ShapeMap format '{shapemap_format}' is not implemented yet"),
+            })?;
         },
     }
 
diff --git a/rudof_lib/src/api/shex/implementations/load_shex_schema.rs b/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
index a7b4910..978a2bd 100644
--- a/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
+++ b/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
@@ -42,7 +42,11 @@ pub fn load_shex_schema(
             load_shex_schema_shexj(rudof, schema_reader, &schema.source_name(), base_schema, &reader_mode)?;
         },
         _ => {
-            todo!("Implement loading for ShEx format '{}'", schema_format);
+            return Err(ShExError::FailedParsingShExSchema {
+                error: "format not supported".to_string(),
+                source_name: schema.source_name(),
+                format: schema_format.to_string(),
+            })?;
         },
     }
 
diff --git a/rudof_lib/src/api/shex/implementations/serialize_shapemap.rs b/rudof_lib/src/api/shex/implementations/serialize_shapemap.rs
index 868626e..d166aa5 100644
--- a/rudof_lib/src/api/shex/implementations/serialize_shapemap.rs
+++ b/rudof_lib/src/api/shex/implementations/serialize_shapemap.rs
@@ -20,7 +20,10 @@ pub fn serialize_shapemap<W: io::Write>(
             serialize_shapemap_json(shapemap, writer)?;
         },
         _ => {
-            todo!("Implement serialization for ShapeMap format '{}'", shapemap_format);
+            return Err(ShExError::FailedSerializingShapemap {
+                format: shapemap_format.to_string(),
+                error: "format not supported".to_string(),
+            })?;
         },
     }
 
diff --git a/rudof_lib/src/api/shex/implementations/serialize_shex_schema.rs b/rudof_lib/src/api/shex/implementations/serialize_shex_schema.rs
index 3f4cb9f..d4fb0ac 100644
--- a/rudof_lib/src/api/shex/implementations/serialize_shex_schema.rs
+++ b/rudof_lib/src/api/shex/implementations/serialize_shex_schema.rs
@@ -183,7 +183,10 @@ fn serialize_schema(
                 .map_err(|e| ShExError::FailedIoOperation { error: e.to_string() })?;
         },
         _ => {
-            todo!("Implement serialization for ShEx format '{}'", shex_format);
+            return Err(ShExError::FailedSerializingShExSchema {
+                format: shex_format.to_string(),
+                error: "format not supported".to_string(),
+            })?;
         },
     }
 
diff --git a/rudof_lib/src/api/shex/implementations/serialize_shex_validation_results.rs b/rudof_lib/src/api/shex/implementations/serialize_shex_validation_results.rs
index 16c2287..af6ad16 100644
--- a/rudof_lib/src/api/shex/implementations/serialize_shex_validation_results.rs
+++ b/rudof_lib/src/api/shex/implementations/serialize_shex_validation_results.rs
@@ -54,7 +54,10 @@ pub fn serialize_shex_validation_results<W: io::Write>(
             writeln!(writer, "{str}").map_err(|e| ShExError::FailedIoOperation { error: e.to_string() })?;
         },
         _ => {
-            todo!("Implement serialization for the specified format: {result_shex_validation_format:?}");
+            return Err(ShExError::FailedSerializingShExValidationResults {
+                format: result_shex_validation_format.to_string(),
+                error: "format not supported".to_string(),
+            })?;
         },
     }
 
diff --git a/rudof_lib/src/errors/comparison_error.rs b/rudof_lib/src/errors/comparison_error.rs
index 28a2704..28c336a 100644
--- a/rudof_lib/src/errors/comparison_error.rs
+++ b/rudof_lib/src/errors/comparison_error.rs
@@ -27,6 +27,10 @@ pub enum ComparisonError {
     )]
     UnsupportedConversionToDCTap { format: String },
 
+    /// Comparisons that are not implemented yet.
+    #[error("Comparison in mode '{mode}' is not implemented yet")]
+    NotImplementedComparison { mode: String },
+
     /// Errors related to specifying the data source.
     #[error("Data source specification error: {message}")]
     DataSourceSpec { message: String },
-- 
2.43.0


From 3fcf71f85fb5064841c3d1a02ef47de7d741972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:18 +0000
Subject: [PATCH 71/99] fix: remember where ShExJ schemas come from, so that
 their imports can be found

---
 .../shex/implementations/load_shex_schema.rs  | 60 +++++++++++--------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/rudof_lib/src/api/shex/implementations/load_shex_schema.rs b/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
index 978a2bd..7b84106 100644
--- a/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
+++ b/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
@@ -67,6 +67,36 @@ fn init_defaults(
     ))
 }
 
+/// The IRI of the place a schema comes from
+#[cfg(target_family = "wasm")]
+fn source_iri(source_name: &str) -> Result<IriS> {
+    Ok(IriS::from_str(source_name).map_err(|error| IriError::ParseError {
+        iri: source_name.to_string(),
+        error: error.to_string(),
+    })?)
+}
+
+/// The IRI of the place a schema comes from
+#[cfg(not(target_family = "wasm"))]
+fn source_iri(source_name: &str) -> Result<IriS> {
+    let cwd = env::current_dir().map_err(|e| IriError::PathConversionError {
+        path: ".".to_string(),
+        error: format!("Error resolving source IRI. Failed to get current directory: {e}"),
+    })?;
+
+    let url = Url::from_directory_path(&cwd).map_err(|_| IriError::PathConversionError {
+        path: cwd.to_string_lossy().to_string(),
+        error: "Error resolving source IRI. Cannot convert current directory to a file URL".to_string(),
+    })?;
+
+    Ok(
+        IriS::from_str_base(source_name, Some(url.as_str())).map_err(|e| IriError::ParseError {
+            iri: source_name.to_string(),
+            error: format!("Failed to parse source name as IRI: {e}"),
+        })?,
+    )
+}
+
 fn load_shex_schema_shexc<R: io::Read>(
     rudof: &mut Rudof,
     mut schema_reader: R,
@@ -84,31 +114,7 @@ fn load_shex_schema_shexc<R: io::Read>(
         })?;
     let header = default_prefix_header(rudof, &content, PrefixDirective::Sparql);
     let prefixed_reader = io::Cursor::new(format!("{header}{content}"));
-    #[cfg(target_family = "wasm")]
-    let source_iri = {
-        IriS::from_str(source_name).map_err(|error| IriError::ParseError {
-            iri: source_name.to_string(),
-            error: error.to_string(),
-        })?
-    };
-
-    #[cfg(not(target_family = "wasm"))]
-    let source_iri = {
-        let cwd = env::current_dir().map_err(|e| IriError::PathConversionError {
-            path: ".".to_string(),
-            error: format!("Error resolving source IRI. Failed to get current directory: {e}"),
-        })?;
-
-        let url = Url::from_directory_path(&cwd).map_err(|_| IriError::PathConversionError {
-            path: cwd.to_string_lossy().to_string(),
-            error: "Error resolving source IRI. Cannot convert current directory to a file URL".to_string(),
-        })?;
-
-        IriS::from_str_base(source_name, Some(url.as_str())).map_err(|e| IriError::ParseError {
-            iri: source_name.to_string(),
-            error: format!("Failed to parse source name as IRI: {e}"),
-        })?
-    };
+    let source_iri = source_iri(source_name)?;
 
     let schema = ShExParser::from_reader(prefixed_reader, Some(base_schema.clone()), &source_iri).map_err(|error| {
         ShExError::FailedParsingShExSchema {
@@ -130,11 +136,13 @@ fn load_shex_schema_shexj<R: io::Read>(
     base_schema: IriS,
     reader_mode: &DataReaderMode,
 ) -> Result<()> {
-    let schema = ShExSchema::from_reader(schema_reader).map_err(|error| ShExError::FailedParsingShExSchema {
+    let mut schema = ShExSchema::from_reader(schema_reader).map_err(|error| ShExError::FailedParsingShExSchema {
         error: error.to_string(),
         source_name: source_name.to_string(),
         format: "ShExJ".to_string(),
     })?;
+    // Imports are searched for from the place the schema comes from
+    schema.with_source_iri(&source_iri(source_name)?);
 
     compile_shex_schema(rudof, base_schema, schema, reader_mode)?;
 
-- 
2.43.0


From ade47303903c4e93b79638c1fab9a1ad1adb392a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:18 +0000
Subject: [PATCH 72/99] fix: import a document once, whichever IRIs lead to it

---
 shex_ast/src/ir/ast2ir.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/shex_ast/src/ir/ast2ir.rs b/shex_ast/src/ir/ast2ir.rs
index 8d2a0af..4016e08 100644
--- a/shex_ast/src/ir/ast2ir.rs
+++ b/shex_ast/src/ir/ast2ir.rs
@@ -36,6 +36,8 @@ pub struct AST2IR {
     resolve_method: ResolveMethod,
     semantic_actions_registry: Arc<SemanticActionsRegistry>,
     triple_expr_labels: HashMap<ast::TripleExprLabel, ast::TripleExpr>,
+    /// The documents the schema is made of
+    documents: Vec<IriS>,
 }
 
 impl AST2IR {
@@ -49,6 +51,7 @@ impl AST2IR {
             shape_decls_counter: 0,
             semantic_actions_registry: Arc::new(semantic_actions_registry),
             triple_expr_labels: HashMap::new(),
+            documents: Vec::new(),
         }
     }
 
@@ -63,6 +66,7 @@ impl AST2IR {
             shape_decls_counter: 0,
             semantic_actions_registry: registry,
             triple_expr_labels: HashMap::new(),
+            documents: Vec::new(),
         }
     }
 
@@ -81,6 +85,8 @@ impl AST2IR {
         let rewritten_root = external_resolvers.rewrite_ast(schema_ast.clone());
         let schema_ast = &rewritten_root;
 
+        self.documents = vec![source_iri.clone()];
+
         // Collect labels of all imported schemas first, so they are available when compiling the root schema's shape expressions. This also serves as a cycle check for imports.
         let mut visited = Vec::new();
 
@@ -160,7 +166,12 @@ impl AST2IR {
             if !visited_sources.contains(&import_iri) {
                 visited_sources.push(import_iri.clone());
                 // For imported schemas, the base for dereferencing is the source IRI of the importer.
-                let imported_schema = self.resolve(&import_iri, Some(source_iri))?;
+                let (imported_schema, document) = self.resolve(&import_iri, Some(source_iri))?;
+                // Several IRIs can lead to the same document, which can also be the root schema
+                if self.documents.contains(&document) {
+                    continue;
+                }
+                self.documents.push(document);
                 // Apply the external-resolver registry so EXTERNAL decls inside imported schemas are
                 // substituted before their labels are registered.
                 let imported_schema = external_resolvers.rewrite_ast(imported_schema);
@@ -216,7 +227,7 @@ impl AST2IR {
         Ok(shape_labels_counter)
     }
 
-    fn resolve(&self, iri: &IriS, base: Option<&IriS>) -> CResult<SchemaAST> {
+    fn resolve(&self, iri: &IriS, base: Option<&IriS>) -> CResult<(SchemaAST, IriS)> {
         let new_schema = match &self.resolve_method {
             ResolveMethod::RotatingFormats(formats) => find_schema_rotating_formats(iri, formats.clone(), base),
             ResolveMethod::ByGuessingExtension => todo!(),
@@ -1346,11 +1357,12 @@ fn cnv_iri_ref(iri: &IriRef, prefixmap: &PrefixMap) -> Result<IriS, Box<SchemaIR
     }
 }
 
+/// Finds the schema an IRI leads to, and the IRI of the document it is in
 pub fn find_schema_rotating_formats(
     iri: &IriS,
     formats: Vec<ShExFormat>,
     base: Option<&IriS>,
-) -> Result<SchemaAST, Box<SchemaIRError>> {
+) -> Result<(SchemaAST, IriS), Box<SchemaIRError>> {
     let mut errors = Vec::new();
     for format in &formats {
         trace!("Trying format {format} for IRI {iri} with base {base:?}");
@@ -1371,7 +1383,7 @@ pub fn get_schema_from_iri(
     iri: &IriS,
     format: &ShExFormat,
     base: Option<&IriS>,
-) -> Result<SchemaAST, Box<SchemaIRError>> {
+) -> Result<(SchemaAST, IriS), Box<SchemaIRError>> {
     let candidates = candidates(iri, base, format).map_err(|e| {
         Box::new(SchemaIRError::CandidatesError {
             iri: iri.clone(),
@@ -1380,24 +1392,24 @@ pub fn get_schema_from_iri(
     })?;
     match format {
         ShExFormat::ShExC => {
-            let content = find_content_from_iris(candidates, base)?;
+            let (content, document) = find_content_from_iris(candidates, base)?;
             let schema = ShExParser::parse(content.as_str(), Some(iri.clone()), iri).map_err(|e| {
                 Box::new(SchemaIRError::ShExCError {
                     iri: iri.clone(),
                     error: e.to_string(),
                 })
             })?;
-            Ok(schema)
+            Ok((schema, document))
         },
         ShExFormat::ShExJ => {
-            let content = find_content_from_iris(candidates, base)?;
+            let (content, document) = find_content_from_iris(candidates, base)?;
             let schema = SchemaAST::from_reader(content.as_bytes()).map_err(|e| {
                 Box::new(SchemaIRError::ShExJError {
                     iri: iri.clone(),
                     error: e.to_string(),
                 })
             })?;
-            Ok(schema)
+            Ok((schema, document))
         },
         ShExFormat::RDFFormat(_) => Err(Box::new(SchemaIRError::ImportIriError {
             error: format!("{iri}: schemas in {format} cannot be imported yet"),
@@ -1420,10 +1432,10 @@ pub fn candidates(iri: &IriS, base: Option<&IriS>, format: &ShExFormat) -> Resul
     Ok(candidates)
 }
 
-fn find_content_from_iris(iris: Vec<IriS>, base: Option<&IriS>) -> Result<String, Box<SchemaIRError>> {
-    find_first_ok(iris, |iri| get_content(iri, base))
+fn find_content_from_iris(iris: Vec<IriS>, base: Option<&IriS>) -> Result<(String, IriS), Box<SchemaIRError>> {
+    find_first_ok(iris, |iri| get_content(iri.clone(), base).map(|content| (content, iri)))
         .map_err(|errs| Box::new(SchemaIRError::FindingContentFromIrisError { errors: errs }))
-        .map(|(content, _)| content)
+        .map(|(found, _)| found)
 }
 
 fn get_content(iri: IriS, base: Option<&IriS>) -> Result<String, SchemaIRError> {
-- 
2.43.0


From b10b2c4ddaefb1885c568b5f3d3420c45ba8abac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:55 +0000
Subject: [PATCH 73/99] fix: report missing reifiers for the focus node, with
 the shape and the value, and skip literal focus nodes

---
 shacl/src/validator/engine/validate.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/shacl/src/validator/engine/validate.rs b/shacl/src/validator/engine/validate.rs
index 09192e3..50dd7b9 100644
--- a/shacl/src/validator/engine/validate.rs
+++ b/shacl/src/validator/engine/validate.rs
@@ -6,7 +6,7 @@ use crate::validator::engine::focus_nodes_ops::FocusNodesOps;
 use crate::validator::engine::value_nodes_ops::ValueNodesOps;
 use crate::validator::nodes::FocusNodes;
 use crate::validator::report::ValidationResult;
-use rudof_rdf::rdf_core::term::Object;
+use rudof_rdf::rdf_core::term::{Object, Triple};
 use rudof_rdf::rdf_core::vocabs::ShaclVocab;
 use rudof_rdf::rdf_core::{NeighsRDF, Rdf, SHACLPath};
 use std::collections::{HashMap, HashSet};
@@ -132,7 +132,6 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
                     self,
                     store,
                     runner,
-                    source_shape,
                     reifier_info,
                     &FocusNodes::single(fnode.clone()),
                     shapes_graph,
@@ -169,7 +168,6 @@ fn validate_reifiers<RDF: NeighsRDF + Debug>(
     shape: &IRShape,
     store: &RDF,
     runner: &mut dyn Engine<RDF>,
-    source_shape: Option<&IRShape>,
     reifier_info: &ReifierInfo,
     focus_nodes: &FocusNodes<RDF>,
     shapes_graph: &IRSchema,
@@ -177,10 +175,14 @@ fn validate_reifiers<RDF: NeighsRDF + Debug>(
     let mut results = Vec::new();
 
     for node in focus_nodes.iter() {
+        // Literals have no values
+        let Ok(subject) = RDF::term_as_subject(node) else {
+            continue;
+        };
+        let focus_node = RDF::term_as_object(node)?;
         for reifier_shape in reifier_info.reifier_shape() {
             let pred = reifier_info.predicate();
             let pred_iri: RDF::IRI = pred.clone().into();
-            let subject = RDF::term_as_subject(node)?;
             let triples = store
                 .triples_with_subject_predicate(&subject, &pred_iri)
                 .map_err(ValidationError::new_graph_error::<RDF>)?;
@@ -191,16 +193,16 @@ fn validate_reifiers<RDF: NeighsRDF + Debug>(
                     .map_err(ValidationError::new_graph_error::<RDF>)?
                     .collect::<Vec<_>>();
                 if reifier_subjects.is_empty() && reifier_info.reification_required() {
+                    let message = format!("Reification required but no reifier found for triple {triple}");
                     let vr_single = ValidationResult::new(
-                        shape.id().clone(),
+                        focus_node.clone(),
                         Object::iri(ShaclVocab::sh_reifier_shape_constraint_component()),
                         shape.severity().clone(),
                     )
-                    .with_message(MessageMap::from(
-                        "Reification required but no reifier found for triple {triple} with predicate {pred}",
-                    ))
+                    .with_message(shape.message().cloned().unwrap_or(MessageMap::from(message)))
                     .with_path(Some(SHACLPath::iri(pred.clone())))
-                    .with_source(source_shape.map(|s| s.id()).cloned());
+                    .with_value(Some(RDF::term_as_object(&triple.into_object())?))
+                    .with_source(Some(shape.id().clone()));
                     results.push(vr_single);
                     continue;
                 }
-- 
2.43.0


From 281cbf5a50e149501a95b90d1b4a8c6eb98b8352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:55 +0000
Subject: [PATCH 74/99] fix: write the prefixes of SPARQL constraints as
 declarations instead of losing their names

---
 rudof_rdf/src/rdf_core/vocabs/xsd.rs |  1 +
 shacl/src/ir/component.rs            | 25 +++++++++++++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/vocabs/xsd.rs b/rudof_rdf/src/rdf_core/vocabs/xsd.rs
index 5b4746b..e0a5b32 100644
--- a/rudof_rdf/src/rdf_core/vocabs/xsd.rs
+++ b/rudof_rdf/src/rdf_core/vocabs/xsd.rs
@@ -10,6 +10,7 @@ impl RdfVocabulary for XsdVocab {
 
 vocab_term!(XsdVocab, XSD_BOOLEAN, "boolean");
 vocab_term!(XsdVocab, XSD_STRING, "string");
+vocab_term!(XsdVocab, XSD_ANY_URI, "anyURI");
 vocab_term!(XsdVocab, XSD_DATE_TIME, "dateTime");
 vocab_term!(XsdVocab, XSD_INTEGER, "integer");
 vocab_term!(XsdVocab, XSD_NEGATIVE_INTEGER, "negativeInteger");
diff --git a/shacl/src/ir/component.rs b/shacl/src/ir/component.rs
index c58ec7f..6cf50aa 100644
--- a/shacl/src/ir/component.rs
+++ b/shacl/src/ir/component.rs
@@ -12,10 +12,11 @@ use crate::ir::shape_label_idx::ShapeLabelIdx;
 use crate::ir::{convert_iri_ref, convert_value};
 use crate::types::NodeKind;
 use itertools::Itertools;
+use prefixmap::IriRef;
 use rudof_iri::IriS;
 use rudof_rdf::rdf_core::term::Object;
 use rudof_rdf::rdf_core::term::literal::ConcreteLiteral;
-use rudof_rdf::rdf_core::vocabs::{RdfVocab, ShaclVocab};
+use rudof_rdf::rdf_core::vocabs::{RdfVocab, ShaclVocab, XsdVocab};
 use rudof_rdf::rdf_core::{BuildRDF, SHACLPath};
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Display, Formatter};
@@ -306,9 +307,25 @@ impl IRComponent {
                 }
 
                 if let Some(prefixes) = sparql.prefixes() {
-                    prefixes
-                        .iter()
-                        .try_for_each(|(_, iri)| register_iri(iri, ShaclVocab::sh_prefixes(), &bn_obj, graph))?;
+                    // The declarations of the prefixes, in an ontology of their own
+                    let any_uri = IriRef::iri(XsdVocab::xsd_any_uri());
+                    let ontology = add_bnode(graph)?;
+                    for (prefix, namespace) in prefixes.iter() {
+                        let declaration = add_bnode(graph)?;
+                        let prefix: RDF::Literal = ConcreteLiteral::str(prefix).into();
+                        let namespace: RDF::Literal =
+                            ConcreteLiteral::lit_datatype(namespace.as_str(), &any_uri).into();
+                        graph
+                            .add_triple(declaration.clone(), ShaclVocab::sh_prefix(), prefix)
+                            .map_err(IRError::add_triple::<RDF>)?;
+                        graph
+                            .add_triple(declaration.clone(), ShaclVocab::sh_namespace(), namespace)
+                            .map_err(IRError::add_triple::<RDF>)?;
+                        graph
+                            .add_triple(ontology.clone(), ShaclVocab::sh_declare(), declaration)
+                            .map_err(IRError::add_triple::<RDF>)?;
+                    }
+                    register_term(&ontology.into(), ShaclVocab::sh_prefixes(), &bn_obj, graph)?;
                 }
 
                 // Register sh:sparql bnode
-- 
2.43.0


From bb26da521387d65e4dd6a5baece79a6daccda2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:56 +0000
Subject: [PATCH 75/99] fix: bind $this in every group of the queries of SPARQL
 constraints, with or without the WHERE keyword

---
 .../constraints/sparql/basic_validator.rs     |  6 +-
 shacl/src/validator/constraints/sparql/mod.rs | 87 ++++++++++++++++---
 2 files changed, 78 insertions(+), 15 deletions(-)

diff --git a/shacl/src/validator/constraints/sparql/basic_validator.rs b/shacl/src/validator/constraints/sparql/basic_validator.rs
index b45fc76..6c89301 100644
--- a/shacl/src/validator/constraints/sparql/basic_validator.rs
+++ b/shacl/src/validator/constraints/sparql/basic_validator.rs
@@ -7,7 +7,7 @@ use crate::types::MessageMap;
 use crate::validator::constraints::BasicSparqlValidator;
 use crate::validator::constraints::NativeValidator;
 #[cfg(feature = "sparql")]
-use crate::validator::constraints::sparql::{inject_values_into_where, path_to_sparql};
+use crate::validator::constraints::sparql::{inject_values_into_groups, path_to_sparql};
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
@@ -71,9 +71,9 @@ impl<RDF: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<RDF> for
         let mut results = Vec::new();
 
         for (focus_node, _) in value_nodes.iter() {
-            // Bind ?this via a VALUES clause and inject it in the WHERE block
+            // Bind ?this via a VALUES clause and inject it in the groups of the query
             let values_clause = format!("VALUES ?this {{ {} }}", focus_node);
-            let query_body = inject_values_into_where(&select_with_path, &values_clause);
+            let query_body = inject_values_into_groups(&select_with_path, &values_clause);
             let full_query = format!("{}{}", prefix_header, query_body);
 
             let solutions = store
diff --git a/shacl/src/validator/constraints/sparql/mod.rs b/shacl/src/validator/constraints/sparql/mod.rs
index 7078d75..d590efa 100644
--- a/shacl/src/validator/constraints/sparql/mod.rs
+++ b/shacl/src/validator/constraints/sparql/mod.rs
@@ -25,19 +25,82 @@ fn path_to_sparql(path: &SHACLPath) -> String {
     }
 }
 
+/// Adds a clause at the start of every group of a query, so that the variables it binds have their
+/// values wherever they appear. Groups that are subqueries take the clause in their own group.
 #[cfg(feature = "sparql")]
-fn inject_values_into_where(query: &str, values_clause: &str) -> String {
-    let upper = query.to_uppercase();
-    if let Some(where_pos) = upper.find("WHERE")
-        && let Some(brace_offset) = query[where_pos..].find('{')
-    {
-        let insert_at = where_pos + brace_offset + 1;
-        let mut result = query[..insert_at].to_string();
-        result.push(' ');
-        result.push_str(values_clause);
-        result.push_str(&query[insert_at..]);
-        return result;
+fn inject_values_into_groups(query: &str, values_clause: &str) -> String {
+    let mut result = String::with_capacity(query.len() + values_clause.len());
+    let mut rest = query;
+    // After VALUES, the next brace starts its data
+    let mut in_values = false;
+    while let Some(c) = rest.chars().next() {
+        // Braces that are part of other tokens do not start a group
+        let len = match c {
+            '#' => rest.find(['\n', '\r']).unwrap_or(rest.len()),
+            '<' => iri_length(rest).unwrap_or(1),
+            '"' | '\'' => string_length(rest, c),
+            c if is_word(c) => rest.find(|c| !is_word(c)).unwrap_or(rest.len()),
+            c => c.len_utf8(),
+        };
+        let (token, tail) = rest.split_at(len);
+        result.push_str(token);
+        rest = tail;
+        if token.eq_ignore_ascii_case("VALUES") {
+            in_values = true;
+        } else if token == "{" {
+            if !in_values && !rest.starts_with('|') && !starts_with_select(rest) {
+                result.push(' ');
+                result.push_str(values_clause);
+                result.push(' ');
+            }
+            in_values = false;
+        }
     }
+    result
+}
+
+/// Whether a character can be part of a keyword, a variable or a prefixed name
+#[cfg(feature = "sparql")]
+fn is_word(c: char) -> bool {
+    c.is_alphanumeric() || "_?$:".contains(c)
+}
+
+/// Length of the IRI at the start of a text, if it is one and not an operator
+#[cfg(feature = "sparql")]
+fn iri_length(text: &str) -> Option<usize> {
+    let end = text.find('>')?;
+    let is_iri = !text[1..end].contains(|c: char| c <= ' ' || "<\"{}|^`\\".contains(c));
+    is_iri.then_some(end + 1)
+}
 
-    format!("{values_clause} {query}")
+/// Length of the string at the start of a text
+#[cfg(feature = "sparql")]
+fn string_length(text: &str, quote: char) -> usize {
+    let long = quote.to_string().repeat(3);
+    let delimiter = if text.starts_with(&long) {
+        long.as_str()
+    } else {
+        &long[..1]
+    };
+    let mut pos = delimiter.len();
+    while let Some(c) = text[pos..].chars().next() {
+        if text[pos..].starts_with(delimiter) {
+            return pos + delimiter.len();
+        }
+        pos += c.len_utf8();
+        if c == '\\' {
+            pos += text[pos..].chars().next().map_or(0, char::len_utf8);
+        }
+    }
+    text.len()
+}
+
+/// Whether the first word of a group, after blanks and comments, is `SELECT`
+#[cfg(feature = "sparql")]
+fn starts_with_select(group: &str) -> bool {
+    let mut rest = group.trim_start();
+    while rest.starts_with('#') {
+        rest = rest.find(['\n', '\r']).map_or("", |end| rest[end..].trim_start());
+    }
+    rest.get(..6).is_some_and(|word| word.eq_ignore_ascii_case("SELECT"))
 }
-- 
2.43.0


From d4cec195f07732926a6cbb20a8748f4b27fdc9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:56 +0000
Subject: [PATCH 76/99] fix: use the text of a ?message binding as result
 message, not its syntax with quotes

---
 shacl/src/validator/constraints/sparql/basic_validator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/shacl/src/validator/constraints/sparql/basic_validator.rs b/shacl/src/validator/constraints/sparql/basic_validator.rs
index 6c89301..34057fe 100644
--- a/shacl/src/validator/constraints/sparql/basic_validator.rs
+++ b/shacl/src/validator/constraints/sparql/basic_validator.rs
@@ -118,7 +118,12 @@ impl<RDF: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<RDF> for
 
                 // sh:resultMessage: prefer ?message binding, then self.message
                 let message = if let Some(msg_term) = sol.find_solution("message") {
-                    MessageMap::from(format!("{msg_term}"))
+                    match RDF::term_as_object(msg_term)? {
+                        Object::Literal(literal) => {
+                            MessageMap::new().with_message(literal.lang(), literal.lexical_form())
+                        },
+                        other => MessageMap::from(other.to_string()),
+                    }
                 } else {
                     self.message().cloned().unwrap_or_default()
                 };
-- 
2.43.0


From 7e60534211a55afbf8ebbaf56f5de870ca9ee05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:49 +0000
Subject: [PATCH 77/99] fix: keep the data of a session when the data to
 replace it cannot be loaded

---
 .../src/api/data/implementations/load_data.rs   | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/rudof_lib/src/api/data/implementations/load_data.rs b/rudof_lib/src/api/data/implementations/load_data.rs
index 34b0f79..dd029ec 100644
--- a/rudof_lib/src/api/data/implementations/load_data.rs
+++ b/rudof_lib/src/api/data/implementations/load_data.rs
@@ -27,7 +27,16 @@ pub fn load_data(
     prefixes: Option<&[InputSpec]>,
 ) -> Result<()> {
     let (data_format, reader_mode, base, merge) = init_defaults(rudof, data_format, reader_mode, base, merge)?;
-    match (data, endpoint) {
+    // Data that replaces the data of the session, instead of being merged into it, does so only
+    // when it can be loaded: after a failure the session keeps the data it had
+    let replaces = match (&rudof.data, data, endpoint) {
+        (_, Some([]), None) => false,
+        (Some(previous), _, None) => !merge || previous.is_pg() != matches!(data_format, DataFormat::Pg),
+        _ => true,
+    };
+    let previous = if replaces { rudof.data.take() } else { None };
+
+    let result = match (data, endpoint) {
         (Some(_data), Some(_endpoint)) => Err(Box::new(DataError::DataSourceSpec {
             message: "Cannot specify both data and endpoint. Please choose one or the other.".to_string(),
         })
@@ -41,7 +50,13 @@ pub fn load_data(
             message: "No data source specified. Please provide either data or an endpoint.".to_string(),
         })
         .into()),
+    };
+
+    if result.is_err() && replaces {
+        rudof.data = previous;
     }
+
+    result
 }
 
 fn init_defaults(
-- 
2.43.0


From a59eb8884709f03435a509e994689de2da815768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:49 +0000
Subject: [PATCH 78/99] fix: reset the type map, not the shape map, with the
 validation of property graphs

---
 .../api/pgschema/implementations/reset_pgschema_validation.rs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rudof_lib/src/api/pgschema/implementations/reset_pgschema_validation.rs b/rudof_lib/src/api/pgschema/implementations/reset_pgschema_validation.rs
index 41dc38d..759efea 100644
--- a/rudof_lib/src/api/pgschema/implementations/reset_pgschema_validation.rs
+++ b/rudof_lib/src/api/pgschema/implementations/reset_pgschema_validation.rs
@@ -2,6 +2,6 @@ use crate::Rudof;
 
 pub fn reset_pgschema_validation(rudof: &mut Rudof) {
     rudof.pg_schema = None;
-    rudof.shapemap = None;
+    rudof.typemap = None;
     rudof.pg_schema_validation_results = None;
 }
-- 
2.43.0


From d2f56c98538d5a782efa9fb91276552f84149c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:49 +0000
Subject: [PATCH 79/99] fix: leave the schemas of a session as they are when
 another one is converted

---
 .../api/conversion/implementations/show_schema_conversion.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rudof_lib/src/api/conversion/implementations/show_schema_conversion.rs b/rudof_lib/src/api/conversion/implementations/show_schema_conversion.rs
index 9572ee1..2d2b3ef 100644
--- a/rudof_lib/src/api/conversion/implementations/show_schema_conversion.rs
+++ b/rudof_lib/src/api/conversion/implementations/show_schema_conversion.rs
@@ -35,6 +35,11 @@ pub fn show_schema_conversion<W: io::Write>(
     output_folder: Option<&Path>,
     writer: &mut W,
 ) -> Result<()> {
+    // What is loaded to be converted is not what the session has loaded
+    let mut converting = Rudof::new(rudof.config.clone());
+    converting.prefixes = rudof.prefixes.clone();
+    let rudof = &mut converting;
+
     match (input_mode, output_mode) {
         (ConversionMode::ShEx, ResultConversionMode::ShEx) => show_schema_conversion_shex_to_shex(
             rudof,
-- 
2.43.0


From b7d8a7060593968b46933de2308a3dd083b9557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:49 +0000
Subject: [PATCH 80/99] fix: check a schema with the default prefixes that it
 is loaded with

---
 rudof_lib/src/api/shex/implementations/check_shex_schema.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rudof_lib/src/api/shex/implementations/check_shex_schema.rs b/rudof_lib/src/api/shex/implementations/check_shex_schema.rs
index f2344b5..57a0e7d 100644
--- a/rudof_lib/src/api/shex/implementations/check_shex_schema.rs
+++ b/rudof_lib/src/api/shex/implementations/check_shex_schema.rs
@@ -21,6 +21,7 @@ pub fn check_shex_schema<W: io::Write>(
         .with_check_negation_requirement(false);
     temp_config.shex_validator = validator_cfg;
     let mut temp_rudof = Rudof::new(temp_config);
+    temp_rudof.prefixes = rudof.prefixes.clone();
 
     let is_schema_well_formed = match load_shex_schema(
         &mut temp_rudof,
-- 
2.43.0


From adb99aa1e342cb50e951e9c4ffed40c46e65f998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:23 +0000
Subject: [PATCH 81/99] fix: tell literals of the same value in different
 datatypes or timezones apart

---
 .../rdf_core/term/literal/numeric_literal.rs  | 46 ++++++++-----------
 .../src/rdf_core/term/literal/xsd_datetime.rs | 16 ++++++-
 2 files changed, 33 insertions(+), 29 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
index 7c46797..602740d 100644
--- a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@@ -389,43 +389,33 @@ impl NumericLiteral {
 /// the exact variant type + value, not normalized decimal values.
 impl Eq for NumericLiteral {}
 
-/// PartialEq that compares numeric value when possible (canonicalizing to Decimal).
+/// PartialEq that distinguishes datatypes, as equality of RDF terms does.
+///
+/// Use [`PartialOrd`] to compare literals of different datatypes by their numeric value.
 impl PartialEq for NumericLiteral {
     fn eq(&self, other: &Self) -> bool {
-        // If both can be represented as Decimal, compare by decimal value.
-        if let (Some(d1), Some(d2)) = (self.to_decimal(), other.to_decimal()) {
-            return d1 == d2;
-        }
-
-        // Fall back to matching exact variants for cases that cannot be normalized.
         match (self, other) {
+            (NumericLiteral::Integer(a), NumericLiteral::Integer(b)) => a == b,
+            (NumericLiteral::Byte(a), NumericLiteral::Byte(b)) => a == b,
+            (NumericLiteral::Short(a), NumericLiteral::Short(b)) => a == b,
+            (NumericLiteral::NonNegativeInteger(a), NumericLiteral::NonNegativeInteger(b)) => a == b,
+            (NumericLiteral::UnsignedLong(a), NumericLiteral::UnsignedLong(b)) => a == b,
+            (NumericLiteral::UnsignedInt(a), NumericLiteral::UnsignedInt(b)) => a == b,
+            (NumericLiteral::UnsignedShort(a), NumericLiteral::UnsignedShort(b)) => a == b,
+            (NumericLiteral::UnsignedByte(a), NumericLiteral::UnsignedByte(b)) => a == b,
+            (NumericLiteral::PositiveInteger(a), NumericLiteral::PositiveInteger(b)) => a == b,
+            (NumericLiteral::NegativeInteger(a), NumericLiteral::NegativeInteger(b)) => a == b,
+            (NumericLiteral::NonPositiveInteger(a), NumericLiteral::NonPositiveInteger(b)) => a == b,
+            (NumericLiteral::Long(a), NumericLiteral::Long(b)) => a == b,
+            (NumericLiteral::Decimal(a), NumericLiteral::Decimal(b)) => a == b,
             (NumericLiteral::Double(a), NumericLiteral::Double(b)) => a.to_bits() == b.to_bits(),
             (NumericLiteral::Float(a), NumericLiteral::Float(b)) => a.to_bits() == b.to_bits(),
-            _ => {
-                // Same variant and same value
-                core::mem::discriminant(self) == core::mem::discriminant(other)
-                    && match (self, other) {
-                        (NumericLiteral::Integer(a), NumericLiteral::Integer(b)) => a == b,
-                        (NumericLiteral::Byte(a), NumericLiteral::Byte(b)) => a == b,
-                        (NumericLiteral::Short(a), NumericLiteral::Short(b)) => a == b,
-                        (NumericLiteral::NonNegativeInteger(a), NumericLiteral::NonNegativeInteger(b)) => a == b,
-                        (NumericLiteral::UnsignedLong(a), NumericLiteral::UnsignedLong(b)) => a == b,
-                        (NumericLiteral::UnsignedInt(a), NumericLiteral::UnsignedInt(b)) => a == b,
-                        (NumericLiteral::UnsignedShort(a), NumericLiteral::UnsignedShort(b)) => a == b,
-                        (NumericLiteral::UnsignedByte(a), NumericLiteral::UnsignedByte(b)) => a == b,
-                        (NumericLiteral::PositiveInteger(a), NumericLiteral::PositiveInteger(b)) => a == b,
-                        (NumericLiteral::NegativeInteger(a), NumericLiteral::NegativeInteger(b)) => a == b,
-                        (NumericLiteral::NonPositiveInteger(a), NumericLiteral::NonPositiveInteger(b)) => a == b,
-                        (NumericLiteral::Long(a), NumericLiteral::Long(b)) => a == b,
-                        (NumericLiteral::Decimal(a), NumericLiteral::Decimal(b)) => a == b,
-                        _ => false,
-                    }
-            },
+            _ => false,
         }
     }
 }
 
-/// Hash implementation consistent with the numeric-value-based equality above.
+/// Hash implementation consistent with the equality above: equal literals have the same numeric value.
 impl Hash for NumericLiteral {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         // If convertible to Decimal, hash the normalized Decimal value (ignores variant)
diff --git a/rudof_rdf/src/rdf_core/term/literal/xsd_datetime.rs b/rudof_rdf/src/rdf_core/term/literal/xsd_datetime.rs
index 85b068b..27463e0 100644
--- a/rudof_rdf/src/rdf_core/term/literal/xsd_datetime.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/xsd_datetime.rs
@@ -10,11 +10,25 @@ use thiserror::Error;
 /// This type wraps `oxsdatatypes::DateTime` and provides a type-safe way to work
 /// with XSD DateTime values (e.g., "2026-01-20T12:34:56Z"). The datetime string
 /// is validated upon construction, ensuring it can be parsed into a proper `DateTime`.
-#[derive(Debug, PartialEq, Eq, Clone, PartialOrd)]
+#[derive(Debug, Eq, Clone)]
 pub struct XsdDateTime {
     value: DateTime,
 }
 
+/// Equality of RDF terms: the same instant in another timezone is another term.
+impl PartialEq for XsdDateTime {
+    fn eq(&self, other: &Self) -> bool {
+        self.value.is_identical_with(other.value)
+    }
+}
+
+/// Chronological order, which does not depend on the timezone.
+impl PartialOrd for XsdDateTime {
+    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
+        self.value.partial_cmp(&other.value)
+    }
+}
+
 impl XsdDateTime {
     /// Creates a new `XsdDateTime` from a string slice.
     ///
-- 
2.43.0


From f5a43fc0895b08b5387ac2aeeb064e6c24cdad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:27 +0000
Subject: [PATCH 82/99] fix: keep the datatype xsd:short of numbers

---
 rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
index 602740d..866f19e 100644
--- a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@@ -690,7 +690,7 @@ impl From<NumericLiteral> for oxrdf::Literal {
             NumericLiteral::Long(l) => oxrdf::Literal::new_typed_literal(l.to_string(), oxrdf::vocab::xsd::LONG),
             NumericLiteral::Float(f) => oxrdf::Literal::from(f),
             NumericLiteral::Byte(b) => oxrdf::Literal::new_typed_literal(b.to_string(), oxrdf::vocab::xsd::BYTE),
-            NumericLiteral::Short(s) => oxrdf::Literal::from(s),
+            NumericLiteral::Short(s) => oxrdf::Literal::new_typed_literal(s.to_string(), oxrdf::vocab::xsd::SHORT),
             NumericLiteral::NonNegativeInteger(n) => {
                 oxrdf::Literal::new_typed_literal(n.to_string(), oxrdf::vocab::xsd::NON_NEGATIVE_INTEGER)
             },
-- 
2.43.0


From 8fae0bdf5c86a237a69973e5a4901536c08bec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:07 +0000
Subject: [PATCH 83/99] fix: queries over an endpoint also ran on the empty
 local graph, and endpoints that fail looked empty

---
 sparql_service/src/srdf_data/rdf_data.rs | 78 ++++++++++++++++--------
 1 file changed, 53 insertions(+), 25 deletions(-)

diff --git a/sparql_service/src/srdf_data/rdf_data.rs b/sparql_service/src/srdf_data/rdf_data.rs
index 67d5aad..9101f2d 100644
--- a/sparql_service/src/srdf_data/rdf_data.rs
+++ b/sparql_service/src/srdf_data/rdf_data.rs
@@ -247,6 +247,35 @@ impl RdfData {
         self.endpoints.get(name).cloned()
     }
 
+    /// All the triples of the active endpoints. An endpoint that cannot be
+    /// read is an error, not an endpoint without triples.
+    fn endpoint_triples(&self) -> Result<Vec<OxTriple>, RdfDataError> {
+        let mut triples = Vec::new();
+        for endpoint in self.use_endpoints.values() {
+            triples.extend(NeighsRDF::triples(endpoint)?);
+        }
+        Ok(triples)
+    }
+
+    /// Whether the primary backend takes part in SPARQL queries: an empty
+    /// in-memory graph is only a placeholder once some endpoint is active, and
+    /// its answers (a count of 0, an unmatched OPTIONAL...) are not solutions
+    /// over the data.
+    fn queries_primary(&self) -> Result<bool, RdfDataError> {
+        if self.use_endpoints.is_empty() {
+            return Ok(true);
+        }
+        match self.primary.as_in_memory() {
+            Some(graph) => {
+                let mut triples = graph.triples().map_err(|e| RdfDataError::Backend {
+                    err: Box::new(rudof_rdf::rdf_impl::RdfBackendError::from(e)),
+                })?;
+                Ok(triples.next().is_some())
+            },
+            None => Ok(true),
+        }
+    }
+
     /// Gets all the triples from the primary backend and the active endpoints.
     /// Can be very expensive on remote backends.
     pub fn all_triples(&self) -> Result<Box<dyn Iterator<Item = OxTriple> + '_>, RdfDataError> {
@@ -255,11 +284,7 @@ impl RdfData {
             .triples()
             .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?
             .collect();
-        let endpoint_triples = self
-            .use_endpoints
-            .values()
-            .flat_map(|e| NeighsRDF::triples(e))
-            .flatten();
+        let endpoint_triples = self.endpoint_triples()?;
         Ok(Box::new(primary_triples.into_iter().chain(endpoint_triples)))
     }
 }
@@ -376,10 +401,13 @@ impl QueryRDF for RdfData {
     where
         Self: Sized,
     {
-        let mut out = self
-            .primary
-            .query_construct(query_str, format)
-            .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?;
+        let mut out = String::new();
+        if self.queries_primary()? {
+            out = self
+                .primary
+                .query_construct(query_str, format)
+                .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?;
+        }
         for (_name, endpoint) in self.endpoints_to_use() {
             let extra = endpoint.query_construct(query_str, format)?;
             out.push_str(&extra);
@@ -394,13 +422,16 @@ impl QueryRDF for RdfData {
         let mut sols: QuerySolutions<RdfData> = QuerySolutions::empty();
 
         // Primary backend.
-        let primary_sols = self
-            .primary
-            .query_select(query_str)
-            .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?;
-        let primary_pm = <RdfBackend as Rdf>::prefixmap(&self.primary).unwrap_or_default();
-        let converted: Vec<QuerySolution<RdfData>> = primary_sols.iter().map(|s| s.convert(|t| t.clone())).collect();
-        sols.extend(converted, primary_pm);
+        if self.queries_primary()? {
+            let primary_sols = self
+                .primary
+                .query_select(query_str)
+                .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?;
+            let primary_pm = <RdfBackend as Rdf>::prefixmap(&self.primary).unwrap_or_default();
+            let converted: Vec<QuerySolution<RdfData>> =
+                primary_sols.iter().map(|s| s.convert(|t| t.clone())).collect();
+            sols.extend(converted, primary_pm);
+        }
 
         // Federated endpoints.
         for (_, endpoint) in self.endpoints_to_use() {
@@ -413,10 +444,11 @@ impl QueryRDF for RdfData {
     }
 
     fn query_ask(&self, query: &str) -> Result<bool, Self::Err> {
-        if self
-            .primary
-            .query_ask(query)
-            .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?
+        if self.queries_primary()?
+            && self
+                .primary
+                .query_ask(query)
+                .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?
         {
             return Ok(true);
         }
@@ -438,11 +470,7 @@ impl NeighsRDF for RdfData {
             .triples()
             .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?
             .collect();
-        let endpoint_triples: Vec<OxTriple> = self
-            .use_endpoints
-            .values()
-            .flat_map(|e| NeighsRDF::triples(e).map(|i| i.collect::<Vec<_>>()).unwrap_or_default())
-            .collect();
+        let endpoint_triples = self.endpoint_triples()?;
         let iter: Box<dyn Iterator<Item = OxTriple> + '_> = Box::new(primary.into_iter().chain(endpoint_triples));
         Ok(iter)
     }
-- 
2.43.0


From a8d2d631b14763f8f15ff72d75fc22e48f08c9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:07 +0000
Subject: [PATCH 84/99] fix: SHACL validation took data that cannot be read for
 data without nodes

---
 .../validator/constraints/core/logical/not.rs |  8 +--
 .../constraints/core/logical/xone.rs          |  6 +-
 .../core/property_pair/disjoint.rs            |  9 +--
 .../core/shape_based/qualified_value_shape.rs | 12 ++--
 .../validator/constraints/core/value/class.rs | 17 ++---
 shacl/src/validator/constraints/mod.rs        | 69 ++++++-------------
 shacl/src/validator/engine/focus_nodes_ops.rs |  9 ++-
 shacl/src/validator/engine/mod.rs             | 20 ++++--
 shacl/src/validator/engine/validate.rs        |  2 +-
 shacl/src/validator/engine/value_nodes_ops.rs | 10 ++-
 10 files changed, 60 insertions(+), 102 deletions(-)

diff --git a/shacl/src/validator/constraints/core/logical/not.rs b/shacl/src/validator/constraints/core/logical/not.rs
index 31b6785..109e572 100644
--- a/shacl/src/validator/constraints/core/logical/not.rs
+++ b/shacl/src/validator/constraints/core/logical/not.rs
@@ -29,12 +29,8 @@ impl<S: NeighsRDF + Debug> Validator<S> for Not {
             for node in nodes.iter() {
                 let focus_nodes = FocusNodes::single(node.clone());
                 let not_shape = shapes_graph.get_shape_from_idx_e(self.shape())?;
-                let inner_results = not_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph);
-                let is_valid_inside = match inner_results {
-                    Ok(results) => results.is_empty(),
-                    Err(_) => false, // TODO - Should we fail instead of considering it valid?
-                };
-                if is_valid_inside {
+                let inner_results = not_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph)?;
+                if inner_results.is_empty() {
                     let msg = format!(
                         "Shape: {}. NOT constraint not satisfied for focus node {fnode} and internal shape {}",
                         shape.id(),
diff --git a/shacl/src/validator/constraints/core/logical/xone.rs b/shacl/src/validator/constraints/core/logical/xone.rs
index dab77da..a075ece 100644
--- a/shacl/src/validator/constraints/core/logical/xone.rs
+++ b/shacl/src/validator/constraints/core/logical/xone.rs
@@ -33,10 +33,8 @@ impl<S: NeighsRDF + Debug> Validator<S> for Xone {
                 for idx in self.shapes().iter() {
                     let internal_shape = shapes_graph.get_shape_from_idx_e(idx)?;
                     let inner_results =
-                        internal_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph);
-                    if let Ok(results) = inner_results
-                        && results.is_empty()
-                    {
+                        internal_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph)?;
+                    if inner_results.is_empty() {
                         conforming_shapes += 1;
                     }
                 }
diff --git a/shacl/src/validator/constraints/core/property_pair/disjoint.rs b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
index c24f5a3..a7f7e23 100644
--- a/shacl/src/validator/constraints/core/property_pair/disjoint.rs
+++ b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
@@ -3,7 +3,7 @@ use crate::ir::components::Disjoint;
 use crate::ir::{IRComponent, IRSchema, IRShape};
 #[cfg(feature = "sparql")]
 use crate::validator::constraints::{BasicSparqlValidator, term_as_sparql};
-use crate::validator::constraints::{NativeValidator, property_values, validate_with_focus};
+use crate::validator::constraints::{NativeValidator, apply_with_focus, property_values};
 use crate::validator::engine::Engine;
 use crate::validator::iteration::ValueNodeIteration;
 use crate::validator::nodes::ValueNodes;
@@ -29,12 +29,9 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Disjoint {
         maybe_path: Option<&SHACLPath>,
         _: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
-        let check_fn = |f: &S::Term, vn: &S::Term| match property_values(store, f, self.iri()) {
-            Ok(values) => values.contains(vn),
-            Err(_) => true,
-        };
+        let check_fn = |f: &S::Term, vn: &S::Term| Ok(property_values(store, f, self.iri())?.contains(vn));
 
-        validate_with_focus(
+        apply_with_focus(
             component,
             shape,
             value_nodes,
diff --git a/shacl/src/validator/constraints/core/shape_based/qualified_value_shape.rs b/shacl/src/validator/constraints/core/shape_based/qualified_value_shape.rs
index 2c028ea..fb4c678 100644
--- a/shacl/src/validator/constraints/core/shape_based/qualified_value_shape.rs
+++ b/shacl/src/validator/constraints/core/shape_based/qualified_value_shape.rs
@@ -35,20 +35,16 @@ impl<S: NeighsRDF + Debug> Validator<S> for QualifiedValueShape {
             for node in nodes.iter() {
                 let focus_nodes = FocusNodes::single(node.clone());
                 let qv_shape = shapes_graph.get_shape_from_idx_e(self.shape())?;
-                let inner_results = qv_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph);
-                let mut is_valid = match inner_results {
-                    Ok(results) => results.is_empty(),
-                    Err(_) => false,
-                };
+                let inner_results = qv_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph)?;
+                let mut is_valid = inner_results.is_empty();
 
                 if !self.siblings().is_empty() && is_valid {
                     // If there are siblings, check that none of them validate
                     for sibling in self.siblings().iter() {
                         let sibling_shape = shapes_graph.get_shape_from_idx_e(sibling)?;
                         let sibling_results =
-                            sibling_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph);
-                        let sibling_is_valid = sibling_results.is_ok() && sibling_results.unwrap().is_empty();
-                        if sibling_is_valid {
+                            sibling_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph)?;
+                        if sibling_results.is_empty() {
                             is_valid = false;
                             break;
                         }
diff --git a/shacl/src/validator/constraints/core/value/class.rs b/shacl/src/validator/constraints/core/value/class.rs
index 7dfbf49..89d7ce1 100644
--- a/shacl/src/validator/constraints/core/value/class.rs
+++ b/shacl/src/validator/constraints/core/value/class.rs
@@ -3,7 +3,7 @@ use crate::ir::components::Class;
 use crate::ir::{IRComponent, IRSchema, IRShape};
 #[cfg(feature = "sparql")]
 use crate::types::MessageMap;
-use crate::validator::constraints::{NativeValidator, validate_with};
+use crate::validator::constraints::{NativeValidator, apply};
 use crate::validator::engine::Engine;
 use crate::validator::iteration::ValueNodeIteration;
 use crate::validator::nodes::ValueNodes;
@@ -37,13 +37,13 @@ impl<S: NeighsRDF + 'static> NativeValidator<S> for Class {
     ) -> Result<Vec<ValidationResult>, ValidationError> {
         let class_fn = |vn: &S::Term| {
             if vn.is_literal() {
-                return true;
+                return Ok(true);
             }
             let term = S::object_as_term(self.class_rule());
-            !is_instance(store, vn, &term)
+            Ok(!is_instance(store, vn, &term)?)
         };
 
-        validate_with(
+        apply(
             component,
             shape,
             value_nodes,
@@ -83,7 +83,7 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clas
                 let conforms = if vn.is_literal() {
                     false
                 } else if vn.is_blank_node() {
-                    is_instance(store, vn, &class_term)
+                    is_instance(store, vn, &class_term)?
                 } else {
                     let vn_sparql = term_as_sparql::<S>(vn).unwrap_or_default();
                     let query = formatdoc! {"
@@ -111,13 +111,10 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clas
 }
 
 /// Whether a node has the class, or a subclass of it at any distance, as a type.
-fn is_instance<S: NeighsRDF>(store: &S, node: &S::Term, class: &S::Term) -> bool {
+fn is_instance<S: NeighsRDF>(store: &S, node: &S::Term, class: &S::Term) -> Result<bool, ValidationError> {
     let types = SHACLPath::sequence(vec![
         SHACLPath::iri(RdfVocab::rdf_type()),
         SHACLPath::zero_or_more(SHACLPath::iri(RdfsVocab::rdfs_subclass_of_str())),
     ]);
-    store
-        .objects_for_shacl_path(node, &types)
-        .unwrap_or_default()
-        .contains(class)
+    Ok(store.objects_for_shacl_path(node, &types)?.contains(class))
 }
diff --git a/shacl/src/validator/constraints/mod.rs b/shacl/src/validator/constraints/mod.rs
index a77f856..49f6be0 100644
--- a/shacl/src/validator/constraints/mod.rs
+++ b/shacl/src/validator/constraints/mod.rs
@@ -258,9 +258,9 @@ fn apply<S: Rdf, I: IterationStrategy<S>>(
     msg: &str,
     maybe_path: Option<&SHACLPath>,
 ) -> Result<Vec<ValidationResult>, ValidationError> {
-    let results = strategy
+    strategy
         .iterate(value_nodes)
-        .flat_map(|(focus_node, item)| {
+        .filter_map(|(focus_node, item)| {
             let focus = S::term_as_object(focus_node).ok()?;
             let component = Object::iri(component.into());
             let shape_id = shape.id();
@@ -270,21 +270,17 @@ fn apply<S: Rdf, I: IterationStrategy<S>>(
             if let Some(m) = shape.message() {
                 msg = msg.merge(m.to_owned(), true);
             }
-            if let Ok(condition) = evaluator(item)
-                && condition
-            {
-                return Some(
-                    ValidationResult::new(focus, component, shape.severity().clone())
-                        .with_source(source.cloned())
-                        .with_message(msg)
-                        .with_path(maybe_path.cloned())
-                        .with_value(value),
-                );
+            match evaluator(item) {
+                Ok(true) => Some(Ok(ValidationResult::new(focus, component, shape.severity().clone())
+                    .with_source(source.cloned())
+                    .with_message(msg)
+                    .with_path(maybe_path.cloned())
+                    .with_value(value))),
+                Ok(false) => None,
+                Err(e) => Some(Err(e)),
             }
-            None
         })
-        .collect();
-    Ok(results)
+        .collect()
 }
 
 // TODO - Extract common logic with above fn?
@@ -297,29 +293,25 @@ fn apply_with_focus<S: Rdf, I: IterationStrategy<S>>(
     msg: &str,
     maybe_path: Option<&SHACLPath>,
 ) -> Result<Vec<ValidationResult>, ValidationError> {
-    let results = strategy
+    strategy
         .iterate(value_nodes)
-        .flat_map(|(focus_node, item)| {
+        .filter_map(|(focus_node, item)| {
             let focus = S::term_as_object(focus_node).ok()?;
             let component = Object::iri(component.into());
             let shape_id = shape.id();
             let source = Some(shape_id);
             let value = strategy.to_object(item);
             match evaluator(focus_node, item) {
-                Ok(true) => Some(
-                    ValidationResult::new(focus, component, shape.severity().clone())
-                        .with_source(source.cloned())
-                        .with_message(MessageMap::from(msg))
-                        .with_path(maybe_path.cloned())
-                        .with_value(value),
-                ),
+                Ok(true) => Some(Ok(ValidationResult::new(focus, component, shape.severity().clone())
+                    .with_source(source.cloned())
+                    .with_message(MessageMap::from(msg))
+                    .with_path(maybe_path.cloned())
+                    .with_value(value))),
                 Ok(false) => None,
-                Err(_) => None,
+                Err(e) => Some(Err(e)),
             }
         })
-        .collect();
-
-    Ok(results)
+        .collect()
 }
 
 /// Returns the values of a property of a node. A node that cannot be a subject has none.
@@ -368,27 +360,6 @@ fn validate_with<S: Rdf, I: IterationStrategy<S>>(
     )
 }
 
-/// Validate with a boolean evaluator. If the evaluator returns true, it means that there is a violation
-fn validate_with_focus<S: Rdf, I: IterationStrategy<S>>(
-    component: &IRComponent,
-    shape: &IRShape,
-    value_nodes: &ValueNodes<S>,
-    strategy: I,
-    evaluator: impl Fn(&S::Term, &I::Item) -> bool,
-    msg: &str,
-    maybe_path: Option<&SHACLPath>,
-) -> Result<Vec<ValidationResult>, ValidationError> {
-    apply_with_focus(
-        component,
-        shape,
-        value_nodes,
-        strategy,
-        |f, i| Ok(evaluator(f, i)),
-        msg,
-        maybe_path,
-    )
-}
-
 /// Runs an ASK query per value node and emits a violation when the query
 /// returns `false`. If the closure returns `None` for a value node, that node
 /// is treated as conforming (use this for cases where the value node can't be
diff --git a/shacl/src/validator/engine/focus_nodes_ops.rs b/shacl/src/validator/engine/focus_nodes_ops.rs
index 7461de6..34bf166 100644
--- a/shacl/src/validator/engine/focus_nodes_ops.rs
+++ b/shacl/src/validator/engine/focus_nodes_ops.rs
@@ -1,16 +1,15 @@
+use crate::error::ValidationError;
 use crate::ir::IRShape;
 use crate::validator::engine::Engine;
 use crate::validator::nodes::FocusNodes;
 use rudof_rdf::rdf_core::{NeighsRDF, Rdf};
 
 pub(crate) trait FocusNodesOps<RDF: Rdf> {
-    fn focus_nodes(&self, store: &RDF, runner: &dyn Engine<RDF>) -> FocusNodes<RDF>;
+    fn focus_nodes(&self, store: &RDF, runner: &dyn Engine<RDF>) -> Result<FocusNodes<RDF>, ValidationError>;
 }
 
 impl<RDF: NeighsRDF> FocusNodesOps<RDF> for IRShape {
-    fn focus_nodes(&self, store: &RDF, runner: &dyn Engine<RDF>) -> FocusNodes<RDF> {
-        runner
-            .focus_nodes(store, self.targets())
-            .expect("Failed to retrieve focus nodes")
+    fn focus_nodes(&self, store: &RDF, runner: &dyn Engine<RDF>) -> Result<FocusNodes<RDF>, ValidationError> {
+        runner.focus_nodes(store, self.targets())
     }
 }
diff --git a/shacl/src/validator/engine/mod.rs b/shacl/src/validator/engine/mod.rs
index d3d3515..869f3fd 100644
--- a/shacl/src/validator/engine/mod.rs
+++ b/shacl/src/validator/engine/mod.rs
@@ -49,9 +49,9 @@ pub trait Engine<S: NeighsRDF>: Send {
     ) -> Result<Vec<ValidationResult>, ValidationError>;
 
     fn focus_nodes(&self, store: &S, targets: &[Target]) -> Result<FocusNodes<S>, ValidationError> {
-        let targets_iter: Vec<_> = targets
-            .iter()
-            .flat_map(|target| match target {
+        let mut focus_nodes = Vec::new();
+        for target in targets {
+            let nodes = match target {
                 Target::Node(n) => self.target_node(store, n),
                 Target::Class(c) => self.target_class(store, c),
                 Target::SubjectsOf(p) => self.target_subject_of(store, p),
@@ -62,11 +62,17 @@ pub trait Engine<S: NeighsRDF>: Send {
                 Target::WrongSubjectsOf(_) => todo!(),
                 Target::WrongObjectsOf(_) => todo!(),
                 Target::WrongImplicitClass(_) => todo!(),
-            })
-            .flatten()
-            .collect();
+            };
+            match nodes {
+                Ok(nodes) => focus_nodes.extend(nodes),
+                // These targets select no nodes
+                Err(ValidationError::TargetNodeBNode | ValidationError::TargetClassNotIri) => {},
+                // Data that cannot be read is not the same as a target without nodes
+                Err(e) => return Err(e),
+            }
+        }
 
-        Ok(FocusNodes::from_iter(targets_iter))
+        Ok(FocusNodes::from_iter(focus_nodes))
     }
 
     /// If s is a shape in a shapes graph SG and s has value t for sh:targetNode
diff --git a/shacl/src/validator/engine/validate.rs b/shacl/src/validator/engine/validate.rs
index 50dd7b9..ac4dc65 100644
--- a/shacl/src/validator/engine/validate.rs
+++ b/shacl/src/validator/engine/validate.rs
@@ -40,7 +40,7 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
 
         // Get focus nodes
         let focus_nodes = match targets {
-            None => &self.focus_nodes(store, runner),
+            None => &self.focus_nodes(store, runner)?,
             Some(targets) => targets,
         };
 
diff --git a/shacl/src/validator/engine/value_nodes_ops.rs b/shacl/src/validator/engine/value_nodes_ops.rs
index 65b5092..b07692d 100644
--- a/shacl/src/validator/engine/value_nodes_ops.rs
+++ b/shacl/src/validator/engine/value_nodes_ops.rs
@@ -46,12 +46,10 @@ impl<RDF: NeighsRDF> ValueNodesOps<RDF> for IRPropertyShape {
         focus_nodes: &FocusNodes<RDF>,
         runner: &dyn Engine<RDF>,
     ) -> Result<ValueNodes<RDF>, ValidationError> {
-        let value_nodes = focus_nodes.iter().filter_map(|n| {
-            match runner.path(store, self, n) {
-                Ok(ts) => Some((n.clone(), ts)),
-                Err(_) => None, // TODO - Should we add a violation for this case?
-            }
-        });
+        let mut value_nodes = Vec::new();
+        for n in focus_nodes.iter() {
+            value_nodes.push((n.clone(), runner.path(store, self, n)?));
+        }
         Ok(ValueNodes::from_iter(value_nodes))
     }
 }
-- 
2.43.0


From da0078462def855bd99b136d05d475788629f90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:20 +0000
Subject: [PATCH 85/99] fix: node constraints without a compact form were
 printed as unreadable ShExC

---
 shex_ast/src/compact/shex_compact_printer.rs | 44 ++++++++++++++++++--
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/shex_ast/src/compact/shex_compact_printer.rs b/shex_ast/src/compact/shex_compact_printer.rs
index b19a3dc..5e1f4b3 100644
--- a/shex_ast/src/compact/shex_compact_printer.rs
+++ b/shex_ast/src/compact/shex_compact_printer.rs
@@ -601,10 +601,46 @@ where
         if *nc == NodeConstraint::default() {
             return self.doc.text(".");
         }
-        self.opt_pp(nc.node_kind(), self.pp_node_kind())
-            .append(self.opt_pp(nc.datatype(), self.pp_datatype()))
-            .append(self.opt_pp(nc.values(), self.pp_value_set()))
-            .append(self.opt_pp(nc.xs_facet(), self.pp_xsfacets()))
+        // The compact syntax has one of kind, datatype and value set per node constraint, and numeric
+        // facets only after LITERAL, a datatype or a value set, or alone: the rest is a conjunction
+        let facets = nc.xs_facet().unwrap_or_default();
+        let (numeric, string): (Vec<_>, Vec<_>) = facets
+            .iter()
+            .cloned()
+            .partition(|facet| matches!(facet, XsFacet::NumericFacet(_)));
+        let mut parts = Vec::new();
+        if let Some(kind) = nc.node_kind() {
+            parts.push(self.pp_node_kind()(&kind, self));
+        }
+        if let Some(datatype) = nc.datatype() {
+            parts.push(self.pp_datatype()(&datatype, self));
+        }
+        if let Some(values) = nc.values() {
+            parts.push(self.pp_value_set()(&values, self));
+        }
+        let literal = nc.values().is_some() || nc.datatype().is_some() || nc.node_kind() == Some(NodeKind::Literal);
+        let together = numeric.is_empty() || string.is_empty() && parts.is_empty() || literal && parts.len() == 1;
+        if !facets.is_empty() {
+            let (first, rest) = if together {
+                (facets, Vec::new())
+            } else {
+                (string, numeric)
+            };
+            if !first.is_empty() {
+                let last = parts.pop().unwrap_or_else(|| self.doc.nil());
+                parts.push(last.append(self.pp_xsfacets()(&first, self)));
+            }
+            if !rest.is_empty() {
+                parts.push(self.pp_xsfacets()(&rest, self));
+            }
+        }
+        if parts.len() == 1 {
+            return self.doc.concat(parts);
+        }
+        self.doc
+            .text("(")
+            .append(self.doc.intersperse(parts, self.keyword(" AND ")))
+            .append(self.doc.text(")"))
     }
 
     fn pp_node_kind(&self) -> impl Fn(&NodeKind, &ShExCompactPrinter<'a, A>) -> DocBuilder<'a, Arena<'a, A>, A> {
-- 
2.43.0


From 81136891a434c231180f251afafb4909b448bc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:22 +0000
Subject: [PATCH 86/99] fix: references with semantic actions were not
 validated

---
 shex_ast/src/ir/shape.rs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/shex_ast/src/ir/shape.rs b/shex_ast/src/ir/shape.rs
index d4cb4d8..8061aeb 100644
--- a/shex_ast/src/ir/shape.rs
+++ b/shex_ast/src/ir/shape.rs
@@ -3,7 +3,7 @@ use super::{
     dependency_graph::{DependencyGraph, PosNeg},
     sem_act::SemAct,
 };
-use crate::{Expr, Pred, ShapeLabelIdx, ir::schema_ir::SchemaIR};
+use crate::{Cond, Expr, Pred, ShapeLabelIdx, ir::schema_ir::SchemaIR};
 use itertools::Itertools;
 use serde::{Deserialize, Serialize};
 use std::{
@@ -108,17 +108,13 @@ impl Shape {
 
     pub fn add_edges(&self, source: ShapeLabelIdx, graph: &mut DependencyGraph, pos_neg: PosNeg) {
         for (_component, pred, cond) in self.expr.components() {
-            match cond {
-                rbe::MatchCond::Single(_single_cond) => {},
-                rbe::MatchCond::And(_match_conds) => {},
-                rbe::MatchCond::Ref(r) => {
-                    graph.add_edge(source, r, pos_neg);
-                    // The values of an EXTRA predicate that don't conform to the reference are
-                    // ignored, so the shape depends negatively on it as well
-                    if self.extra.contains(&pred) {
-                        graph.add_edge(source, r, pos_neg.change());
-                    }
-                },
+            for r in cond_references(&cond) {
+                graph.add_edge(source, r, pos_neg);
+                // The values of an EXTRA predicate that don't conform to the reference are
+                // ignored, so the shape depends negatively on it as well
+                if self.extra.contains(&pred) {
+                    graph.add_edge(source, r, pos_neg.change());
+                }
             }
         }
     }
@@ -126,18 +122,24 @@ impl Shape {
     fn get_value_expr_references(&self) -> HashMap<Pred, Vec<ShapeLabelIdx>> {
         let mut result: HashMap<Pred, Vec<ShapeLabelIdx>> = HashMap::new();
         for (_component, pred, cond) in self.expr.components() {
-            match cond {
-                rbe::MatchCond::Single(_single_cond) => {},
-                rbe::MatchCond::And(_match_conds) => {},
-                rbe::MatchCond::Ref(r) => {
-                    result.entry(pred.clone()).or_default().push(r);
-                },
+            let references = cond_references(&cond);
+            if !references.is_empty() {
+                result.entry(pred.clone()).or_default().extend(references);
             }
         }
         result
     }
 }
 
+/// References of a condition, also those that go with semantic actions
+fn cond_references(cond: &Cond) -> Vec<ShapeLabelIdx> {
+    match cond {
+        rbe::MatchCond::Single(_single_cond) => Vec::new(),
+        rbe::MatchCond::And(conds) => conds.iter().flat_map(cond_references).collect(),
+        rbe::MatchCond::Ref(r) => vec![*r],
+    }
+}
+
 impl Display for Shape {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let extends = if self.extends.is_empty() {
-- 
2.43.0


From 29c10042345bef7daf2806bbecb4901fa21920a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:22 +0000
Subject: [PATCH 87/99] fix: map states with booleans could not be loaded again
 and numbers lost their datatype

---
 shex_ast/src/ir/actions/map_state.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/shex_ast/src/ir/actions/map_state.rs b/shex_ast/src/ir/actions/map_state.rs
index ec73cef..c516ad3 100644
--- a/shex_ast/src/ir/actions/map_state.rs
+++ b/shex_ast/src/ir/actions/map_state.rs
@@ -1,13 +1,15 @@
 use std::{collections::HashMap, fmt::Display};
 
 use rudof_iri::IriS;
-use serde::{Deserialize, Serialize};
+use rudof_rdf::rdf_core::term::{Object, literal::ConcreteLiteral};
+use serde::{Deserialize, Serialize, Serializer};
 
 use crate::Node;
 
 #[derive(Debug, Clone, Serialize, Deserialize, Default, PartialEq, Eq)]
 #[serde(transparent)]
 pub struct MapState {
+    #[serde(serialize_with = "serialize_nodes")]
     map: HashMap<IriS, Node>,
 }
 
@@ -30,3 +32,22 @@ impl Display for MapState {
         write!(f, "MapState {{ map: {:?} }}", self.map)
     }
 }
+
+/// Literals with a value are written with their lexical form and datatype, because the values
+/// alone don't tell the datatype
+fn serialize_nodes<S: Serializer>(map: &HashMap<IriS, Node>, serializer: S) -> Result<S::Ok, S::Error> {
+    serializer.collect_map(map.iter().map(|(variable, node)| match node.as_object() {
+        Object::Literal(
+            literal @ (ConcreteLiteral::NumericLiteral(_)
+            | ConcreteLiteral::BooleanLiteral(_)
+            | ConcreteLiteral::DatetimeLiteral(_)),
+        ) => {
+            let literal = ConcreteLiteral::DatatypeLiteral {
+                lexical_form: literal.lexical_form(),
+                datatype: literal.datatype(),
+            };
+            (variable, Node::new(Object::Literal(literal)))
+        },
+        _ => (variable, node.clone()),
+    }))
+}
-- 
2.43.0


From 48b4c58c44ec8bbe142313b0d285c205f538b3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:22 +0000
Subject: [PATCH 88/99] fix: variables of Map actions that are prefixed names

---
 shex_ast/src/ir/ast2ir.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/shex_ast/src/ir/ast2ir.rs b/shex_ast/src/ir/ast2ir.rs
index 4016e08..6b01479 100644
--- a/shex_ast/src/ir/ast2ir.rs
+++ b/shex_ast/src/ir/ast2ir.rs
@@ -38,6 +38,8 @@ pub struct AST2IR {
     triple_expr_labels: HashMap<ast::TripleExprLabel, ast::TripleExpr>,
     /// The documents the schema is made of
     documents: Vec<IriS>,
+    /// Prefixes of the schema that is being compiled
+    prefixmap: PrefixMap,
 }
 
 impl AST2IR {
@@ -52,6 +54,7 @@ impl AST2IR {
             semantic_actions_registry: Arc::new(semantic_actions_registry),
             triple_expr_labels: HashMap::new(),
             documents: Vec::new(),
+            prefixmap: PrefixMap::new(),
         }
     }
 
@@ -67,6 +70,7 @@ impl AST2IR {
             semantic_actions_registry: registry,
             triple_expr_labels: HashMap::new(),
             documents: Vec::new(),
+            prefixmap: PrefixMap::new(),
         }
     }
 
@@ -114,6 +118,7 @@ impl AST2IR {
 
         compiled_schema.set_semantic_actions_registry(self.semantic_actions_registry.clone());
 
+        self.prefixmap = schema_ast.prefixmap().unwrap_or_default();
         // Collect start actions
         if let Some(start_actions) = schema_ast.start_actions() {
             let mut compiled_start_acts = Vec::new();
@@ -137,8 +142,10 @@ impl AST2IR {
         // Phase 2: compile shape expressions in the order they were collected
         // (imports bottom-up, then root).
         for (ast, src) in imported_asts.iter() {
+            self.prefixmap = ast.prefixmap().unwrap_or_default();
             self.collect_shape_exprs(ast, compiled_schema, src, &schema_ast.base())?;
         }
+        self.prefixmap = schema_ast.prefixmap().unwrap_or_default();
         self.collect_shape_exprs(schema_ast, compiled_schema, source_iri, &schema_ast.base())?;
         compiled_schema.set_local_shapes_counter(local_shapes);
         compiled_schema.set_imported_schemas(visited);
@@ -612,7 +619,16 @@ impl AST2IR {
 
     fn cnv_sem_action(&self, sem_act: &ast::SemAct, prefixmap: &PrefixMap) -> CResult<SemAct> {
         let iri_s = cnv_iri_ref(&sem_act.name(), prefixmap)?;
-        Ok(SemAct::new(iri_s, sem_act.code()))
+        let mut code = sem_act.code();
+        // The variable of a Map action can be a prefixed name
+        if iri_s.equal_without_fragment(&IriS::new_unchecked("http://shex.io/extensions/Map/"))
+            && let Some(variable) = &code
+            && !variable.trim().starts_with('<')
+            && let Ok(iri) = self.prefixmap.resolve(variable.trim())
+        {
+            code = Some(format!("<{iri}>"));
+        }
+        Ok(SemAct::new(iri_s, code))
     }
 
     fn cnv_predicate(predicate: &IriRef, inverse: &Option<bool>) -> CResult<Pred> {
-- 
2.43.0


From 6b5e6491841fd4c0df1d2e39a92d31e1e67ec5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:22 +0000
Subject: [PATCH 89/99] fix: materialize turned inverse constraints round, and
 overflowed the stack on recursive shapes

---
 shex_ast/src/materialize/materializer.rs | 182 ++++++++++++++++++-----
 1 file changed, 143 insertions(+), 39 deletions(-)

diff --git a/shex_ast/src/materialize/materializer.rs b/shex_ast/src/materialize/materializer.rs
index 419033a..5846551 100644
--- a/shex_ast/src/materialize/materializer.rs
+++ b/shex_ast/src/materialize/materializer.rs
@@ -20,6 +20,9 @@ pub enum MaterializeError {
     #[error("Cannot use node as RDF subject: {node}")]
     NodeNotSubject { node: String },
 
+    #[error("Shape {label} requires itself, so there is no finite graph for it")]
+    RecursiveShape { label: String },
+
     #[error("RDF graph error: {error}")]
     RdfError { error: String },
 }
@@ -39,6 +42,11 @@ pub enum MaterializeError {
 ///      the `code` of the action in the [`MapState`]; if a value is found,
 ///      assert `(subject, predicate, value)`.
 ///
+///    The triples of inverse triple constraints are asserted the other way
+///    round. Of several alternatives only the first one with values is
+///    generated. Optional expressions are left out when there are no values for
+///    them, or when they lead back to a shape that is being generated.
+///
 /// The resulting graph validates against the target schema.
 pub struct Materializer;
 
@@ -92,7 +100,7 @@ impl Materializer {
         };
 
         let start = self.find_start_shape_expr(schema)?;
-        self.generate_shape_expr::<G>(&start, subject, schema, map_state, &mut graph)?;
+        self.generate_shape_expr::<G>(&start, subject, schema, map_state, &mut Vec::new(), &mut graph)?;
 
         Ok(graph)
     }
@@ -108,7 +116,7 @@ impl Materializer {
         if let Some(shapes) = schema.shapes()
             && let Some(first) = shapes.into_iter().next()
         {
-            return Ok(first.shape_expr);
+            return Ok(ShapeExpr::Ref(first.id));
         }
         Err(MaterializeError::NoStartShape)
     }
@@ -132,6 +140,7 @@ impl Materializer {
         subject: G::Subject,
         schema: &Schema,
         map_state: &MapState,
+        stack: &mut Vec<ShapeExprLabel>,
         graph: &mut G,
     ) -> Result<(), MaterializeError>
     where
@@ -144,10 +153,18 @@ impl Materializer {
         G::Err: std::fmt::Display,
     {
         match shape_expr {
-            ShapeExpr::Shape(shape) => self.generate_shape::<G>(shape, subject, schema, map_state, graph),
+            ShapeExpr::Shape(shape) => self.generate_shape::<G>(shape, subject, schema, map_state, stack, graph),
             ShapeExpr::Ref(label) => {
+                if stack.contains(label) {
+                    return Err(MaterializeError::RecursiveShape {
+                        label: format!("{label:?}"),
+                    });
+                }
                 let target = self.find_shape_by_label(label, schema)?;
-                self.generate_shape_expr::<G>(&target, subject, schema, map_state, graph)
+                stack.push(label.clone());
+                let result = self.generate_shape_expr::<G>(&target, subject, schema, map_state, stack, graph);
+                stack.pop();
+                result
             },
             // ShapeAnd / ShapeOr / NodeConstraint / External not handled for basic materialization
             _ => Ok(()),
@@ -160,6 +177,7 @@ impl Materializer {
         subject: G::Subject,
         schema: &Schema,
         map_state: &MapState,
+        stack: &mut Vec<ShapeExprLabel>,
         graph: &mut G,
     ) -> Result<(), MaterializeError>
     where
@@ -172,7 +190,7 @@ impl Materializer {
         G::Err: std::fmt::Display,
     {
         if let Some(expr_wrapper) = &shape.expression {
-            self.generate_triple_expr::<G>(&expr_wrapper.te, subject, schema, map_state, graph)?;
+            self.generate_triple_expr::<G>(&expr_wrapper.te, subject, schema, map_state, stack, graph)?;
         }
         Ok(())
     }
@@ -183,6 +201,7 @@ impl Materializer {
         subject: G::Subject,
         schema: &Schema,
         map_state: &MapState,
+        stack: &mut Vec<ShapeExprLabel>,
         graph: &mut G,
     ) -> Result<(), MaterializeError>
     where
@@ -194,23 +213,32 @@ impl Materializer {
         G::Subject: From<G::BNode>,
         G::Err: std::fmt::Display,
     {
+        if is_optional(triple_expr) && !self.has_values(triple_expr, schema, map_state, &mut stack.clone()) {
+            return Ok(());
+        }
         match triple_expr {
             TripleExpr::EachOf { expressions, .. } => {
                 for wrapper in expressions {
-                    self.generate_triple_expr::<G>(&wrapper.te, subject.clone(), schema, map_state, graph)?;
+                    self.generate_triple_expr::<G>(&wrapper.te, subject.clone(), schema, map_state, stack, graph)?;
                 }
             },
             TripleExpr::OneOf { expressions, .. } => {
-                for wrapper in expressions {
-                    self.generate_triple_expr::<G>(&wrapper.te, subject.clone(), schema, map_state, graph)?;
+                let alternative = expressions
+                    .iter()
+                    .find(|wrapper| self.has_values(&wrapper.te, schema, map_state, &mut stack.clone()))
+                    .or(expressions.first());
+                if let Some(wrapper) = alternative {
+                    self.generate_triple_expr::<G>(&wrapper.te, subject, schema, map_state, stack, graph)?;
                 }
             },
             TripleExpr::TripleConstraint {
+                inverse,
                 predicate,
                 value_expr,
                 sem_acts,
                 ..
             } => {
+                let inverse = inverse.unwrap_or(false);
                 let pred_iri: IriS = schema.resolve_iriref(predicate);
                 let pred: G::IRI = G::IRI::from(pred_iri);
 
@@ -221,12 +249,14 @@ impl Materializer {
                             .add_bnode()
                             .map_err(|e| MaterializeError::RdfError { error: e.to_string() })?;
                         let bnode_subject: G::Subject = G::Subject::from(bnode.clone());
-                        let bnode_term: G::Term = G::Term::from(bnode);
-                        graph
-                            .add_triple(subject.clone(), pred, bnode_term)
-                            .map_err(|e| MaterializeError::RdfError { error: e.to_string() })?;
-                        let target = self.find_shape_by_label(label, schema)?;
-                        self.generate_shape_expr::<G>(&target, bnode_subject, schema, map_state, graph)?;
+                        let result = if inverse {
+                            graph.add_triple(bnode_subject.clone(), pred, subject)
+                        } else {
+                            graph.add_triple(subject, pred, bnode)
+                        };
+                        result.map_err(|e| MaterializeError::RdfError { error: e.to_string() })?;
+                        let target = ShapeExpr::Ref(label.clone());
+                        self.generate_shape_expr::<G>(&target, bnode_subject, schema, map_state, stack, graph)?;
                     },
                     // Inline shape → create fresh blank node and recurse
                     Some(ShapeExpr::Shape(inline_shape)) => {
@@ -234,16 +264,18 @@ impl Materializer {
                             .add_bnode()
                             .map_err(|e| MaterializeError::RdfError { error: e.to_string() })?;
                         let bnode_subject: G::Subject = G::Subject::from(bnode.clone());
-                        let bnode_term: G::Term = G::Term::from(bnode);
-                        graph
-                            .add_triple(subject.clone(), pred, bnode_term)
-                            .map_err(|e| MaterializeError::RdfError { error: e.to_string() })?;
-                        self.generate_shape::<G>(inline_shape, bnode_subject, schema, map_state, graph)?;
+                        let result = if inverse {
+                            graph.add_triple(bnode_subject.clone(), pred, subject)
+                        } else {
+                            graph.add_triple(subject, pred, bnode)
+                        };
+                        result.map_err(|e| MaterializeError::RdfError { error: e.to_string() })?;
+                        self.generate_shape::<G>(inline_shape, bnode_subject, schema, map_state, stack, graph)?;
                     },
                     // Leaf node → apply Map semantic actions
                     _ => {
                         if let Some(acts) = sem_acts {
-                            self.apply_map_actions::<G>(acts, subject.clone(), pred, schema, map_state, graph)?;
+                            self.apply_map_actions::<G>(acts, subject, pred, inverse, schema, map_state, graph)?;
                         }
                     },
                 }
@@ -255,46 +287,118 @@ impl Materializer {
         Ok(())
     }
 
+    /// Whether there is a value for some leaf of a triple expression, without
+    /// the shapes that are already being generated.
+    fn has_values(
+        &self,
+        triple_expr: &TripleExpr,
+        schema: &Schema,
+        map_state: &MapState,
+        visited: &mut Vec<ShapeExprLabel>,
+    ) -> bool {
+        match triple_expr {
+            TripleExpr::EachOf { expressions, .. } | TripleExpr::OneOf { expressions, .. } => expressions
+                .iter()
+                .any(|wrapper| self.has_values(&wrapper.te, schema, map_state, visited)),
+            TripleExpr::TripleConstraint {
+                value_expr, sem_acts, ..
+            } => match value_expr.as_deref() {
+                Some(shape_expr @ (ShapeExpr::Ref(_) | ShapeExpr::Shape(_))) => {
+                    self.shape_has_values(shape_expr, schema, map_state, visited)
+                },
+                _ => sem_acts
+                    .iter()
+                    .flatten()
+                    .any(|act| map_value(act, schema, map_state).is_some()),
+            },
+            TripleExpr::Ref(_) => false,
+        }
+    }
+
+    fn shape_has_values(
+        &self,
+        shape_expr: &ShapeExpr,
+        schema: &Schema,
+        map_state: &MapState,
+        visited: &mut Vec<ShapeExprLabel>,
+    ) -> bool {
+        match shape_expr {
+            ShapeExpr::Shape(shape) => shape
+                .expression
+                .as_ref()
+                .is_some_and(|wrapper| self.has_values(&wrapper.te, schema, map_state, visited)),
+            ShapeExpr::Ref(label) => {
+                if visited.contains(label) {
+                    return false;
+                }
+                visited.push(label.clone());
+                self.find_shape_by_label(label, schema)
+                    .is_ok_and(|target| self.shape_has_values(&target, schema, map_state, visited))
+            },
+            _ => false,
+        }
+    }
+
+    #[allow(clippy::too_many_arguments)]
     fn apply_map_actions<G>(
         &self,
         acts: &[SemAct],
         subject: G::Subject,
         pred: G::IRI,
+        inverse: bool,
         schema: &Schema,
         map_state: &MapState,
         graph: &mut G,
     ) -> Result<(), MaterializeError>
     where
         G: BuildRDF,
+        G::Subject: TryFrom<rudof_rdf::rdf_core::term::Object>,
         G::Term: From<rudof_rdf::rdf_core::term::Object>,
         G::Err: std::fmt::Display,
     {
         for act in acts {
-            let act_iri = schema.resolve_iriref(&act.name());
-            if act_iri.as_str() == MAP_EXTENSION_IRI
-                && let Some(code) = act.code()
-            {
-                let trimmed = code.trim();
-                // ShExJ encodes the map key as a Turtle IRI (<http://...>).
-                // ShExC encodes it as a raw prefixed name (:local or prefix:local).
-                // Try Turtle angle-bracket syntax first, then fall back to prefix map resolution.
-                let map_iri = IriS::parse_turtle(trimmed)
-                    .ok()
-                    .or_else(|| schema.prefixmap().and_then(|pm| pm.resolve(trimmed).ok()));
-                if let Some(map_iri) = map_iri
-                    && let Some(value) = map_state.get(&map_iri)
-                {
-                    let obj: G::Term = G::Term::from(value.as_object().clone());
-                    graph
-                        .add_triple(subject.clone(), pred.clone(), obj)
-                        .map_err(|e| MaterializeError::RdfError { error: e.to_string() })?;
-                }
+            if let Some(value) = map_value(act, schema, map_state) {
+                let obj = value.as_object().clone();
+                let result = if inverse {
+                    let value_subject = G::Subject::try_from(obj).map_err(|_| MaterializeError::NodeNotSubject {
+                        node: value.to_string(),
+                    })?;
+                    graph.add_triple(value_subject, pred.clone(), subject.clone())
+                } else {
+                    graph.add_triple(subject.clone(), pred.clone(), G::Term::from(obj))
+                };
+                result.map_err(|e| MaterializeError::RdfError { error: e.to_string() })?;
             }
         }
         Ok(())
     }
 }
 
+fn is_optional(triple_expr: &TripleExpr) -> bool {
+    match triple_expr {
+        TripleExpr::EachOf { min, .. } | TripleExpr::OneOf { min, .. } | TripleExpr::TripleConstraint { min, .. } => {
+            *min == Some(0)
+        },
+        TripleExpr::Ref(_) => false,
+    }
+}
+
+/// The value of the variable of a `Map` semantic action.
+fn map_value<'a>(act: &SemAct, schema: &Schema, map_state: &'a MapState) -> Option<&'a Node> {
+    if schema.resolve_iriref(&act.name()).as_str() != MAP_EXTENSION_IRI {
+        return None;
+    }
+    let code = act.code()?;
+    let trimmed = code.trim();
+    // ShExJ encodes the map key as a Turtle IRI (<http://...>).
+    // ShExC encodes it as a raw prefixed name (:local or prefix:local).
+    // Try Turtle angle-bracket syntax first, then fall back to prefix map resolution.
+    let map_iri = IriS::parse_turtle(trimmed)
+        .ok()
+        .or_else(|| schema.prefixmap().and_then(|pm| pm.resolve(trimmed).ok()))?;
+    map_state.get(&map_iri)
+}
+
 #[cfg(test)]
 mod tests {
     use oxrdf::{NamedNode as OxNamedNode, NamedOrBlankNode as OxSubject, Term as OxTerm};
-- 
2.43.0


From f416262da839046059d2765fcb5c061f284e6200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:46 +0000
Subject: [PATCH 90/99] fix: Map actions also bound variables to values that
 did not match

---
 shex_ast/src/ir/ast2ir.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shex_ast/src/ir/ast2ir.rs b/shex_ast/src/ir/ast2ir.rs
index 6b01479..64c665b 100644
--- a/shex_ast/src/ir/ast2ir.rs
+++ b/shex_ast/src/ir/ast2ir.rs
@@ -772,7 +772,8 @@ impl AST2IR {
             ))
         }?;
         if !sem_actions_conds.is_empty() {
-            sem_actions_conds.push(cond);
+            // Actions are run for what matches
+            sem_actions_conds.insert(0, cond);
             Ok((
                 MatchCond::and(sem_actions_conds),
                 format!("value expression {} + semantic actions", display),
-- 
2.43.0


From c0f9be4e5daca58d19bf2ffe681d6e173c7080f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:46 +0000
Subject: [PATCH 91/99] fix: materialize leaves out optional parts that require
 a shape being generated

---
 shex_ast/src/materialize/materializer.rs | 47 +++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/shex_ast/src/materialize/materializer.rs b/shex_ast/src/materialize/materializer.rs
index 5846551..dfec431 100644
--- a/shex_ast/src/materialize/materializer.rs
+++ b/shex_ast/src/materialize/materializer.rs
@@ -213,7 +213,10 @@ impl Materializer {
         G::Subject: From<G::BNode>,
         G::Err: std::fmt::Display,
     {
-        if is_optional(triple_expr) && !self.has_values(triple_expr, schema, map_state, &mut stack.clone()) {
+        if is_optional(triple_expr)
+            && (!self.has_values(triple_expr, schema, map_state, &mut stack.clone())
+                || self.leads_back(triple_expr, schema, &mut stack.clone()))
+        {
             return Ok(());
         }
         match triple_expr {
@@ -225,7 +228,10 @@ impl Materializer {
             TripleExpr::OneOf { expressions, .. } => {
                 let alternative = expressions
                     .iter()
-                    .find(|wrapper| self.has_values(&wrapper.te, schema, map_state, &mut stack.clone()))
+                    .find(|wrapper| {
+                        self.has_values(&wrapper.te, schema, map_state, &mut stack.clone())
+                            && !self.leads_back(&wrapper.te, schema, &mut stack.clone())
+                    })
                     .or(expressions.first());
                 if let Some(wrapper) = alternative {
                     self.generate_triple_expr::<G>(&wrapper.te, subject, schema, map_state, stack, graph)?;
@@ -315,6 +321,43 @@ impl Materializer {
         }
     }
 
+    /// Whether a triple expression requires a shape that is already being generated.
+    fn leads_back(&self, triple_expr: &TripleExpr, schema: &Schema, stack: &mut Vec<ShapeExprLabel>) -> bool {
+        match triple_expr {
+            TripleExpr::EachOf { expressions, .. } => expressions
+                .iter()
+                .any(|wrapper| !is_optional(&wrapper.te) && self.leads_back(&wrapper.te, schema, stack)),
+            TripleExpr::OneOf { expressions, .. } => expressions
+                .iter()
+                .all(|wrapper| !is_optional(&wrapper.te) && self.leads_back(&wrapper.te, schema, stack)),
+            TripleExpr::TripleConstraint { value_expr, .. } => value_expr
+                .as_deref()
+                .is_some_and(|shape_expr| self.shape_leads_back(shape_expr, schema, stack)),
+            TripleExpr::Ref(_) => false,
+        }
+    }
+
+    fn shape_leads_back(&self, shape_expr: &ShapeExpr, schema: &Schema, stack: &mut Vec<ShapeExprLabel>) -> bool {
+        match shape_expr {
+            ShapeExpr::Shape(shape) => shape
+                .expression
+                .as_ref()
+                .is_some_and(|wrapper| !is_optional(&wrapper.te) && self.leads_back(&wrapper.te, schema, stack)),
+            ShapeExpr::Ref(label) => {
+                if stack.contains(label) {
+                    return true;
+                }
+                stack.push(label.clone());
+                let result = self
+                    .find_shape_by_label(label, schema)
+                    .is_ok_and(|target| self.shape_leads_back(&target, schema, stack));
+                stack.pop();
+                result
+            },
+            _ => false,
+        }
+    }
+
     fn shape_has_values(
         &self,
         shape_expr: &ShapeExpr,
-- 
2.43.0


From ee9f52b44a5cecc793c5eda13d3e97c0fbfb9914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:50 +0000
Subject: [PATCH 92/99] fix: TOTALDIGITS does not count the zero before the
 decimal point

---
 rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
index 866f19e..ca7f59b 100644
--- a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@@ -336,10 +336,12 @@ impl NumericLiteral {
                     d.abs().to_string().len()
                 }
             },
-            // For decimals, normalize and count only digits
+            // For decimals, the digits of the integer i in the normalized value i * 10^-scale,
+            // which cannot be less than the scale
             NumericLiteral::Decimal(d) => {
                 let normalized = d.normalize();
-                normalized.to_string().chars().filter(|c| c.is_ascii_digit()).count()
+                let digits = normalized.mantissa().unsigned_abs().to_string().len();
+                digits.max(normalized.scale() as usize)
             },
             // Float/double don't have meaningful total digits
             NumericLiteral::Double(_) | NumericLiteral::Float(_) => return None,
-- 
2.43.0


From 5c6ec8fefc54ae0ee47701295d0cee88ba802733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:52 +0000
Subject: [PATCH 93/99] fix: decimals in numeric facets keep their sign and
 leading zeros

---
 shex_ast/src/compact/shex_grammar.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index a48aefe..993767c 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -1900,20 +1900,11 @@ fn integer<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, i128> {
 
 /// `[20t] <DECIMAL> ::= [+-]? [0-9]* "." [0-9]+`
 fn decimal(i: Span) -> IRes<NumericLiteral> {
-    map_res(
-        pair(recognize(preceded(opt(sign), digit0)), preceded(token("."), digit1)),
-        |(whole, fraction)| {
-            let w = whole
-                .fragment()
-                .parse::<i64>()
-                .map_err(|e| RDFError::ConversionError { msg: e.to_string() })?;
-            let f = fraction
-                .fragment()
-                .parse::<u32>()
-                .map_err(|e| RDFError::ConversionError { msg: e.to_string() })?;
-            NumericLiteral::decimal_from_parts(w, f)
-        },
-    )
+    map_res(recognize((opt(sign), digit0, token("."), digit1)), |number: Span| {
+        ConcreteLiteral::parse_decimal(number.fragment())
+            .map(NumericLiteral::decimal)
+            .map_err(|msg| RDFError::ConversionError { msg })
+    })
     .parse(i)
 }
 
-- 
2.43.0


From 28c0a2c338bdd108c67d3a5a0cba70b0153ab1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:54 +0000
Subject: [PATCH 94/99] fix: minus zero is a valid unsigned integer

---
 .../src/rdf_core/term/literal/literal.rs      | 30 +++++++++----------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index 7a33334..9b99de3 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -782,29 +782,30 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a non-negative integer.
     pub fn parse_non_negative_integer(s: &str) -> Result<u128, String> {
-        let normalized = s.strip_prefix('+').unwrap_or(s);
-        if let Some(rest) = normalized.strip_prefix('-') {
-            let val = rest
-                .parse::<u128>()
-                .map_err(|e| format!("Cannot convert {s} to non-negative integer: {e}"))?;
-            if val == 0 {
+        if let Some(rest) = s.strip_prefix('-') {
+            if !rest.is_empty() && rest.bytes().all(|b| b == b'0') {
                 return Ok(0);
             }
             return Err(format!("Cannot convert {s} to non-negative integer: value is negative"));
         }
-        normalized
-            .parse::<u128>()
+        s.parse::<u128>()
             .map_err(|e| format!("Cannot convert {s} to non-negative integer: {e}"))
     }
 
+    /// Parses an unsigned integer, which can be written "-0", of a type with a range.
+    fn parse_unsigned<T: TryFrom<u128>>(s: &str, datatype: &str) -> Result<T, String> {
+        Self::parse_non_negative_integer(s)
+            .and_then(|n| T::try_from(n).map_err(|_| "value is out of range".to_string()))
+            .map_err(|e| format!("Cannot convert {s} to {datatype}: {e}"))
+    }
+
     /// Parses an unsigned byte (0–255) from its string representation.
     ///
     /// # Errors
     ///
     /// Returns an error if the string cannot be parsed as a `u8`.
     pub fn parse_unsigned_byte(s: &str) -> Result<u8, String> {
-        s.parse::<u8>()
-            .map_err(|e| format!("Cannot convert {s} to unsignedByte: {e}"))
+        Self::parse_unsigned(s, "unsignedByte")
     }
 
     /// Parses an unsigned short (0–65535) from its string representation.
@@ -813,8 +814,7 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a `u16`.
     pub fn parse_unsigned_short(s: &str) -> Result<u16, String> {
-        s.parse::<u16>()
-            .map_err(|e| format!("Cannot convert {s} to unsignedShort: {e}"))
+        Self::parse_unsigned(s, "unsignedShort")
     }
 
     /// Parses an unsigned integer from its string representation.
@@ -823,8 +823,7 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a `u32`.
     pub fn parse_unsigned_int(s: &str) -> Result<u32, String> {
-        s.parse::<u32>()
-            .map_err(|e| format!("Cannot convert {s} to unsignedInt: {e}"))
+        Self::parse_unsigned(s, "unsignedInt")
     }
 
     /// Parses an unsigned long (0–u64::MAX) from its string representation.
@@ -833,8 +832,7 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a `u64`.
     pub fn parse_unsigned_long(s: &str) -> Result<u64, String> {
-        s.parse::<u64>()
-            .map_err(|e| format!("Cannot convert {s} to unsignedLong: {e}"))
+        Self::parse_unsigned(s, "unsignedLong")
     }
 
     /// Parses a double (64-bit float) from its string representation.
-- 
2.43.0


From 99264d352fa5550fb4bc144c5cdfbb9ac2c39943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:55 +0000
Subject: [PATCH 95/99] fix: numbers out of range in ShExC are refused instead
 of wrapped

---
 shex_ast/src/compact/shex_grammar.rs | 35 +++++++++++++++-------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 993767c..697898a 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -493,14 +493,10 @@ fn length(i: Span) -> IRes<XsFacet> {
 }
 
 fn pos_integer(i: Span) -> IRes<usize> {
-    let (i, n) = integer()(i)?;
-    let u: usize;
-    if n < 0 {
-        Err(Err::Error(error_position!(i, ErrorKind::Digit)))
-    } else {
-        u = n as usize;
-        Ok((i, u))
-    }
+    map_res(integer(), |n| {
+        usize::try_from(n).map_err(|e| RDFError::ConversionError { msg: e.to_string() })
+    })
+    .parse(i)
 }
 
 /// `[30] numericFacet ::= numericRange numericLiteral | numericLength INTEGER`
@@ -525,10 +521,10 @@ fn numeric_range_lit<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, XsFacet> {
 /// `From [30] numericLength INTEGER`
 fn numeric_length_int<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, XsFacet> {
     move |i| {
-        let (i, (numeric_length, n)) = (numeric_length, integer()).parse(i)?;
+        let (i, (numeric_length, n)) = (numeric_length, pos_integer).parse(i)?;
         let nm = match numeric_length {
-            NumericLength::FractionDigits => XsFacet::NumericFacet(NumericFacet::FractionDigits(n as usize)),
-            NumericLength::TotalDigits => XsFacet::NumericFacet(NumericFacet::TotalDigits(n as usize)),
+            NumericLength::FractionDigits => XsFacet::NumericFacet(NumericFacet::FractionDigits(n)),
+            NumericLength::TotalDigits => XsFacet::NumericFacet(NumericFacet::TotalDigits(n)),
         };
         Ok((i, nm))
     }
@@ -1670,12 +1666,12 @@ fn repeat_range<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Cardinality> {
     map_error(
         move |i| {
             let (i, (_, min, maybe_rest_range, _)) =
-                (token("{"), integer(), opt(rest_range()), cut(token("}"))).parse(i)?;
+                (token("{"), cardinality_bound, opt(rest_range()), cut(token("}"))).parse(i)?;
             let cardinality = match maybe_rest_range {
-                None => Cardinality::exact(min as i32),
+                None => Cardinality::exact(min),
                 Some(maybe_max) => match maybe_max {
-                    None => Cardinality::min_max(min as i32, -1),
-                    Some(max) => Cardinality::min_max(min as i32, max),
+                    None => Cardinality::min_max(min, -1),
+                    Some(max) => Cardinality::min_max(min, max),
                 },
             };
             Ok((i, cardinality))
@@ -1698,7 +1694,14 @@ fn rest_range<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Option<i32>> {
 
 /// From rest_range, integer_or_star = INTEGER | "*"
 fn integer_or_star(i: Span) -> IRes<i32> {
-    alt((map(integer(), |n| n as i32), map(token_tws("*"), |_| -1))).parse(i)
+    alt((cardinality_bound, map(token_tws("*"), |_| -1))).parse(i)
+}
+
+fn cardinality_bound(i: Span) -> IRes<i32> {
+    map_res(pos_integer, |n| {
+        i32::try_from(n).map_err(|e| RDFError::ConversionError { msg: e.to_string() })
+    })
+    .parse(i)
 }
 
 /// `[69] <RDF_TYPE> ::= "a"`
-- 
2.43.0


From 87c0da6ae8a2d9c1088664ea4e5dbdfbe43222b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:31 +0000
Subject: [PATCH 96/99] fix: white space within repeat ranges of ShExC

---
 shex_ast/src/compact/shex_grammar.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 697898a..e139cd7 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -1665,8 +1665,16 @@ fn escaped_code(i: Span) -> IRes<char> {
 fn repeat_range<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Cardinality> {
     map_error(
         move |i| {
-            let (i, (_, min, maybe_rest_range, _)) =
-                (token("{"), cardinality_bound, opt(rest_range()), cut(token("}"))).parse(i)?;
+            let (i, (_, _, min, _, maybe_rest_range, _, _)) = (
+                token("{"),
+                tws0,
+                cardinality_bound,
+                tws0,
+                opt(rest_range()),
+                tws0,
+                cut(token("}")),
+            )
+                .parse(i)?;
             let cardinality = match maybe_rest_range {
                 None => Cardinality::exact(min),
                 Some(maybe_max) => match maybe_max {
-- 
2.43.0


From 4a7af2ebea063391148c3d0a6ce18e730a055bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:37 +0000
Subject: [PATCH 97/99] fix: white space around the datatype of a literal in
 ShExC

---
 shex_ast/src/compact/shex_grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index e139cd7..c420749 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -1372,7 +1372,7 @@ fn rdf_literal<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, ConcreteLiteral> {
             let (i, str) = string()(i)?;
             let (i, maybe_value) = opt(alt((
                 map(lang_tag, |lang| ConcreteLiteral::lang_str(&str, lang)),
-                map(preceded(token("^^"), datatype_iri), |datatype| {
+                map(preceded(token_tws("^^"), datatype_iri), |datatype| {
                     ConcreteLiteral::lit_datatype(&str, &datatype)
                 }),
             )))
-- 
2.43.0


From 55a4b545c7ca0c8f94737d83fa8d1049fc3f1535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:30 +0000
Subject: [PATCH 98/99] fix: white space between @ and the label of a shape in
 ShExC

---
 shex_ast/src/compact/shex_grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index c420749..9e61701 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -368,7 +368,7 @@ fn shape_ref(i: Span) -> IRes<ShapeExprLabel> {
 }
 
 fn at_shape_expr_label(i: Span) -> IRes<ShapeExprLabel> {
-    let (i, (_, label)) = (char('@'), shape_expr_label).parse(i)?;
+    let (i, (_, _, label)) = (char('@'), tws0, shape_expr_label).parse(i)?;
     Ok((i, label))
 }
 
-- 
2.43.0


From 4f4c56c4d671dd66eec5bdc7f19fb5ebccbc68e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:37 +0000
Subject: [PATCH 99/99] fix: quotes inside the long strings of ShExC

---
 shex_ast/src/compact/shex_grammar.rs | 38 ++++++++++++++++++----------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 9e61701..0050888 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -1439,26 +1439,38 @@ fn single_quote_char<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, char> {
 
 /// `[158s] <STRING_LITERAL_LONG1> ::= "'''" ( ("'" | "''")? ([^\\'\\] | ECHAR | UCHAR) )* "'''"`
 fn string_literal_long1(i: Span) -> IRes<String> {
-    let (i, chars) = delimited(
-        token("'''"),
-        cut(many0(alt((none_of(r"'\"), echar, uchar)))),
-        token("'''"),
-    )
-    .parse(i)?;
-    let str = chars.iter().collect();
-    Ok((i, str))
+    delimited(token("'''"), long_string_body("'", "''", r"'\"), token("'''")).parse(i)
 }
 
 /// `[159s] <STRING_LITERAL_LONG2> ::= '"""' ( ('"' | '""')? ([^\"\\] | ECHAR | UCHAR) )* '"""'`
 fn string_literal_long2(i: Span) -> IRes<String> {
-    let (i, chars) = delimited(
+    delimited(
         token(r#"""""#),
-        cut(many0(alt((none_of(r#""\"#), echar, uchar)))),
+        long_string_body(r#"""#, "\"\"", r#""\"#),
         token(r#"""""#),
     )
-    .parse(i)?;
-    let str = chars.iter().collect();
-    Ok((i, str))
+    .parse(i)
+}
+
+/// The characters of a long string, where one or two quotes can stand before another character
+fn long_string_body<'a>(
+    quote: &'static str,
+    two_quotes: &'static str,
+    requires_escape: &'static str,
+) -> impl FnMut(Span<'a>) -> IRes<'a, String> {
+    move |i| {
+        let (i, parts) = cut(many0((
+            alt((tag(two_quotes), tag(quote), tag(""))),
+            alt((none_of(requires_escape), echar, uchar)),
+        )))
+        .parse(i)?;
+        let mut str = String::new();
+        for (quotes, c) in parts {
+            str.push_str(quotes.fragment());
+            str.push(c);
+        }
+        Ok((i, str))
+    }
 }
 
 pub fn hex(input: Span) -> IRes<Span> {
-- 
2.43.0

