From 848fdf8e343829a5bf0327a66c3077722c61a412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:21 +0000
Subject: [PATCH 01/13] fix: class database membership is total

A label that was never handed out made the lookup raise IndexError, a
negative one was taken for a known label, and any other key raised
ValueError, so membership tests were not total.
---
 comb_spec_searcher/class_db.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/comb_spec_searcher/class_db.py b/comb_spec_searcher/class_db.py
index 022775a..7ba7871 100644
--- a/comb_spec_searcher/class_db.py
+++ b/comb_spec_searcher/class_db.py
@@ -44,10 +44,9 @@ class LabelToInfo(MutableMapping[int, Optional[Info]]):
         self.empty_list = empty_list
 
     def __getitem__(self, label: int) -> Optional[Info]:
-        try:
-            return Info(self.comb_class_list[label], label, self.empty_list[label])
-        except KeyError:
+        if not 0 <= label < len(self.comb_class_list):
             return None
+        return Info(self.comb_class_list[label], label, self.empty_list[label])
 
     def __setitem__(self, key: int, value: Optional[Info]) -> None:
         raise NotImplementedError
@@ -159,7 +158,7 @@ class ClassDB(Generic[CombinatorialClassType]):
         elif isinstance(key, int):
             info = self.label_to_info.get(key)
         else:
-            raise ValueError("Invalid key")
+            return False
         return info is not None
 
     def __eq__(self, other: object) -> bool:
-- 
2.43.0


From 7dfe2ee785fab0898689de17c0451d3405ec4433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:21 +0000
Subject: [PATCH 02/13] fix: emptiness of a class that has no label yet

ClassDB.is_empty raised KeyError for a class never labelled before. The
memory-saving rule database asks for the emptiness of such classes when
it recomputes a strategy, and MutableMapping.pop took that KeyError for a
missing key, leaving a rule stored that the default database drops.
---
 comb_spec_searcher/class_db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comb_spec_searcher/class_db.py b/comb_spec_searcher/class_db.py
index 7ba7871..4dd8811 100644
--- a/comb_spec_searcher/class_db.py
+++ b/comb_spec_searcher/class_db.py
@@ -261,7 +261,7 @@ class ClassDB(Generic[CombinatorialClassType]):
         Return True if combinatorial class is empty set, False if not.
         """
         if label is None:
-            label = self.label_dict[self._compress(comb_class)]
+            label = self.get_label(comb_class)
 
         empty = self.empty_list[label]
         if empty is None:
-- 
2.43.0


From 0c970627b55406c6abcbc10b47638f25c91f0e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:21 +0000
Subject: [PATCH 03/13] fix: rule database membership query

The key was built with a list, so RuleDB.contains raised TypeError for
every rule instead of answering.
---
 comb_spec_searcher/rule_db/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index b646340..96ed6f0 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -157,7 +157,7 @@ class RuleDBBase(RuleDBAbstract):
 
     def contains(self, start: int, ends: Tuple[int, ...]) -> bool:
         """Return true if the rule start -> ends is in the database."""
-        key = (start, sorted(ends))
+        key = (start, tuple(sorted(ends)))
         return key in self.rule_to_strategy or key in self.eqv_rule_to_strategy
 
     def status(self, elaborate: bool) -> str:
-- 
2.43.0


From 3a3f5f6d5202f87e0ff7ca3dae534c79254536d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:21 +0000
Subject: [PATCH 04/13] fix: iterative pruning starts from the root's
 equivalence class

The rules are taken up to equivalence but the root was passed as a plain
label, so with an equivalence whose representative is another label the
recursion was granted to a label no rule mentions.
---
 comb_spec_searcher/rule_db/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index 96ed6f0..fd84c4f 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -70,7 +70,9 @@ class RuleDBBase(RuleDBAbstract):
         if self._pruned_dict is None:
             rules_dict = self.rules_up_to_equivalence()
             if self.iterative:
-                rules_dict = iterative_prune(rules_dict, root=self.root_label)
+                rules_dict = iterative_prune(
+                    rules_dict, root=self.equivdb[self.root_label]
+                )
             else:
                 prune(rules_dict)
             self._pruned_dict = rules_dict
-- 
2.43.0


From 5a375d605b965e28bde5030c14f7d9e11047a79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:20 +0000
Subject: [PATCH 05/13] fix: forest rule databases with the same content
 compare equal

A searcher using RuleDBForest was never equal to its pickled copy as the
database and its table method only compared by identity.
---
 comb_spec_searcher/rule_db/forest.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/comb_spec_searcher/rule_db/forest.py b/comb_spec_searcher/rule_db/forest.py
index 9c7b487..ea0eaed 100644
--- a/comb_spec_searcher/rule_db/forest.py
+++ b/comb_spec_searcher/rule_db/forest.py
@@ -202,6 +202,12 @@ class TableMethod:
         self._current_gap: Tuple[int, int] = (1, 1)
         self._rule_holding_extra_terms: Set[int] = set()
 
+    def __eq__(self, other: object) -> bool:
+        """Check if the same rules were inserted and the same terms computed."""
+        if not isinstance(other, TableMethod):
+            return NotImplemented
+        return self._rules == other._rules and self.function == other.function
+
     @property
     def function(self) -> Dict[int, Optional[int]]:
         """
@@ -633,6 +639,18 @@ class RuleDBForest(RuleDBAbstract):
         self._already_empty: Set[int] = set()
         self._rule_cache = tuple(rule_cache)
 
+    def __eq__(self, other: object) -> bool:
+        """Check if all stored information is the same."""
+        if not isinstance(other, RuleDBForest):
+            return NotImplemented
+        return (
+            self.reverse == other.reverse
+            and self._num_rules == other._num_rules
+            and self.table_method == other.table_method
+            and self._already_empty == other._already_empty
+            and self._rule_cache == other._rule_cache
+        )
+
     # Implementation of RuleDBAbstract
 
     def status(self, elaborate: bool) -> str:
-- 
2.43.0


From c2b0c12f532fc67536e5951631c2e20723988ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 06/13] fix: strategy equality ignores how the instance was
 created

EmptyStrategy[A, B]() carries an __orig_class__ attribute that EmptyStrategy()
does not, so a specification with an empty rule differed from its JSON copy.
---
 comb_spec_searcher/strategies/strategy.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/strategies/strategy.py b/comb_spec_searcher/strategies/strategy.py
index 03ec634..efd6143 100644
--- a/comb_spec_searcher/strategies/strategy.py
+++ b/comb_spec_searcher/strategies/strategy.py
@@ -114,6 +114,16 @@ def strategy_from_dict(d) -> CSSstrategy:
     return StratClass.from_dict(d)
 
 
+def _settings(obj: Any) -> Dict[str, Any]:
+    """
+    Return the attributes of the object that are part of its settings.
+
+    The `typing` module leaves a trace on the objects that are created from a
+    subscripted generic class (`Strat[A, B]()`) which is not one of them.
+    """
+    return {key: val for key, val in vars(obj).items() if key != "__orig_class__"}
+
+
 class AbstractStrategy(
     abc.ABC, Generic[CombinatorialClassType, CombinatorialObjectType]
 ):
@@ -247,7 +257,7 @@ class AbstractStrategy(
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, AbstractStrategy):
             return NotImplemented
-        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__
+        return self.__class__ == other.__class__ and _settings(self) == _settings(other)
 
     def __repr__(self):
         return (
@@ -947,7 +957,7 @@ class StrategyFactory(abc.ABC, Generic[CombinatorialClassType]):
         pass
 
     def __eq__(self, other: object) -> bool:
-        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__
+        return self.__class__ == other.__class__ and _settings(self) == _settings(other)
 
     def __hash__(self) -> int:
         """
-- 
2.43.0


From 698600407fb83525f0532da810c6b8e7dcc775aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:07 +0000
Subject: [PATCH 07/13] fix: product equation with several parent statistics on
 one child statistic

Only the last parent statistic mapped to a child statistic was substituted.
---
 comb_spec_searcher/strategies/constructor/cartesian.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/strategies/constructor/cartesian.py b/comb_spec_searcher/strategies/constructor/cartesian.py
index b259bf0..0d4e032 100644
--- a/comb_spec_searcher/strategies/constructor/cartesian.py
+++ b/comb_spec_searcher/strategies/constructor/cartesian.py
@@ -145,8 +145,14 @@ class CartesianProduct(Constructor[CombinatorialClassType, CombinatorialObjectTy
     ) -> sympy.Eq:
         res = 1
         for extra_parameters, rhs_func in zip(self.extra_parameters, rhs_funcs):
+            subs: Dict[str, sympy.Expr] = {}
+            for parent, child in extra_parameters.items():
+                if child in subs:
+                    subs[child] *= sympy.var(parent)
+                else:
+                    subs[child] = sympy.var(parent)
             res *= rhs_func.subs(
-                {child: parent for parent, child in extra_parameters.items()},
+                subs,
                 simultaneous=True,
             )
         return sympy.Eq(lhs_func, res)
-- 
2.43.0


From 05c5872adae58d8c76df4d9abb78de6d902a26d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:29 +0000
Subject: [PATCH 08/13] fix: forest rule lookup skips rules whose strategy does
 not apply

A ready rule yielded by a factory may find out that it does not apply only when
its children are computed, which the searcher skips and the extractor raised.
---
 comb_spec_searcher/rule_db/forest.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/comb_spec_searcher/rule_db/forest.py b/comb_spec_searcher/rule_db/forest.py
index ea0eaed..0b7fa79 100644
--- a/comb_spec_searcher/rule_db/forest.py
+++ b/comb_spec_searcher/rule_db/forest.py
@@ -607,13 +607,14 @@ class ForestRuleExtractor:
             else:
                 strats_or_rules = [strat]
             for x in strats_or_rules:
-                if isinstance(x, AbstractStrategy):
-                    try:
-                        yield x(comb_class)
-                    except StrategyDoesNotApply:
-                        continue
-                else:
-                    yield x
+                try:
+                    rule = x(comb_class) if isinstance(x, AbstractStrategy) else x
+                    # A rule might only discover that its strategy does not apply when
+                    # its children are computed.
+                    _ = rule.children
+                except StrategyDoesNotApply:
+                    continue
+                yield rule
 
 
 class RuleDBForest(RuleDBAbstract):
-- 
2.43.0


From d66d6b5f7ff651cf8aeed7f70e9cc8d87c3e60b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:51 +0000
Subject: [PATCH 09/13] fix: parallel finder extracts the specification from
 the start class

The extractor was given the equivalence representative of the start class, so
the start class could end up without a rule when the two differ.
---
 comb_spec_searcher/bijection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 283a5a8..d24c782 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -533,7 +533,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
     @staticmethod
     def _create_spec(d: SpecMap, pi: ParallelInfo) -> CombinatorialSpecification:
         rules = SpecificationRuleExtractor(
-            pi.root_eq_label,
+            pi.searcher.start_label,
             ParallelSpecFinder._create_tree(d, pi.root_eq_label),
             pi.ruledb,
             pi.searcher.classdb,
-- 
2.43.0


From d96f440465317be7b1055f7517adb730b9d7d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:31 +0000
Subject: [PATCH 10/13] fix: breadth first proof trees give each label one rule

Branches of the tree were expanded independently, so a label reached through
two of them could be given a different rule in each.
---
 comb_spec_searcher/tree_searcher.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/comb_spec_searcher/tree_searcher.py b/comb_spec_searcher/tree_searcher.py
index cd8ee67..8886255 100644
--- a/comb_spec_searcher/tree_searcher.py
+++ b/comb_spec_searcher/tree_searcher.py
@@ -209,12 +209,17 @@ def proof_tree_generator_bfs(rules_dict: RulesDict, root: int) -> Iterator[Node]
                 root_node.children = list(children)
                 yield root_node
 
-    sorted_rules_dict = {
-        start: tuple(sorted(ends)) for start, ends in rules_dict.items()
-    }
+    def _has_unique_rules(tree: Node) -> bool:
+        """Return True if no label uses different rules in different branches."""
+        rules: Dict[int, Tuple[int, ...]] = {}
+        for node in tree.nodes():
+            children = tuple(sorted(child.label for child in node.children))
+            if children and rules.setdefault(node.label, children) != children:
+                return False
+        return True
 
-    if root in sorted_rules_dict:
-        yield from _bfs_helper(root, frozenset())
+    if root in rules_dict:
+        yield from filter(_has_unique_rules, _bfs_helper(root, frozenset()))
 
 
 def proof_tree_generator_dfs(
-- 
2.43.0


From e97feaf56b1f966b94ac3ee339e8ee4c326fd527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:03 +0000
Subject: [PATCH 11/13] fix: isomorphism forgets matches relying on a failed
 recursive match

A pair matched through recursion to an ancestor pair stayed recorded as
matched when that ancestor pair later failed, so specifications that are not
isomorphic could be reported isomorphic.
---
 comb_spec_searcher/isomorphism.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index 99a5bf2..4b0a766 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -117,6 +117,9 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         # Update ancestors for recursion
         self._ancestors.update(product(eq_path1, eq_path2))
 
+        # The pairs that were matched without relying on the current nodes matching
+        already_matched = set(self._order_map)
+
         # The number of nonempty children
         n = len(non_empty_ind1)
 
@@ -176,8 +179,11 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         # If stack has been exhausted we have failed to match the ids. We remove them
         # from the ancestors set, memorize the failure and remove any data gathered.
         self._ancestors.difference_update(product(eq_path1, eq_path2))
+        # Matches found below might have relied on this one through recursion.
         self._failed.add((curr1, curr2))
         self._index_data.pop((curr1, curr2), None)
+        for matched in set(self._order_map) - already_matched:
+            del self._order_map[matched]
         return False
 
     def _get_eq_descendant(
-- 
2.43.0


From e69cda255bad4c1038cb77dd338b53df66dfc09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:04 +0000
Subject: [PATCH 12/13] fix: parallel finder took a pair as matched when both
 had rules from other pairs

---
 comb_spec_searcher/bijection.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index d24c782..aabadf4 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -387,6 +387,10 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             sp2,
         ) = ParallelSpecFinder._search_matching_info_init(matching_info)
 
+        # The pairs that have been compared (or are being compared) with the children
+        # they are currently mapped to.
+        matched: Set[Tuple[int, int]] = set()
+
         # Recursive helper function that tries to populate the spec maps in a way
         # that no label appears on the LHS more than one time.
         def _rec(
@@ -396,7 +400,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         ) -> bool:
             # Check base cases (invalid = -1, valid = 1)
             bc = ParallelSpecFinder._search_matching_info_recursion_base_cases(
-                id1, id2, matching_info, matching_info1, matching_info2, sp1, sp2
+                id1, id2, matching_info, matching_info1, matching_info2, sp1, sp2, matched
             )
             if bc:
                 return bool(bc + 1)
@@ -413,6 +417,8 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             ):
                 # Add rule for spec to (id -> children) for both specs
                 sp1[id1], sp2[id2] = children1, children2
+                already_matched = set(matched)
+                matched.add((id1, id2))
 
                 # Construct cleaning sets that are passed down the recursion
                 to_clean: Tuple[Set[int], Set[int]] = (set(), set())
@@ -434,6 +440,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
                     id_sets[1].update(to_clean[1], () if rec2 else (id2,))
                     return True
                 # If failed, remove all descendants that populated the spec maps.
+                matched.intersection_update(already_matched)
                 ParallelSpecFinder._clean_descendants(
                     *to_clean, id1, id2, sp1, sp2, rec1, rec2
                 )
@@ -471,6 +478,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         matching_info2: MatchingInfoSingle,
         sp1: SpecMap,
         sp2: SpecMap,
+        matched: Set[Tuple[int, int]],
     ) -> int:
         if ParallelSpecFinder._inconsistent_with_matching_info(
             id1, id2, matching_info, matching_info1, matching_info2, sp1, sp2
@@ -480,8 +488,9 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         if ((), ()) in matching_info[(id1, id2)]:
             sp1[id1], sp2[id2] = (), ()
             return ParallelSpecFinder._VALID
-        # If both are assigned, we are done
-        if id1 in sp1 and id2 in sp2:
+        # If they have been compared, we are done. Both being assigned is not enough
+        # as that could have been in comparisons with other ids.
+        if (id1, id2) in matched:
             return ParallelSpecFinder._VALID
         return ParallelSpecFinder._UNKNOWN
 
@@ -592,6 +601,10 @@ class EqPathParallelSpecFinder(
         # For storing results of eq path checking.
         eq_path_tracker: EqPathTracker = defaultdict(lambda: defaultdict(dict))
 
+        # The pairs that have been compared (or are being compared) with the children
+        # they are currently mapped to.
+        matched: Set[Tuple[int, int]] = set()
+
         def _rec(
             id1: int,
             id2: int,
@@ -607,6 +620,7 @@ class EqPathParallelSpecFinder(
                 sp2,
                 self._path[-1],
                 eq_path_tracker,
+                matched,
             )
             if bc:
                 return bool(bc + 1)
@@ -617,6 +631,8 @@ class EqPathParallelSpecFinder(
                 matching_info[(id1, id2)],
             ):
                 sp1[id1], sp2[id2] = children1, children2
+                already_matched = set(matched)
+                matched.add((id1, id2))
                 to_clean: Tuple[Set[int], Set[int]] = (set(), set())
 
                 # Check if the path required for the eq labels actually matches
@@ -648,6 +664,7 @@ class EqPathParallelSpecFinder(
                         id_sets[0].update(to_clean[0], () if rec1 else (id1,))
                         id_sets[1].update(to_clean[1], () if rec2 else (id2,))
                         return True
+                matched.intersection_update(already_matched)
                 EqPathParallelSpecFinder._clean_descendants(
                     *to_clean, id1, id2, sp1, sp2, rec1, rec2
                 )
@@ -672,6 +689,7 @@ class EqPathParallelSpecFinder(
         sp2: SpecMap,
         relations: Tuple[int, int, int, int],
         eq_path_tracker: EqPathTracker,
+        matched: Set[Tuple[int, int]],
     ) -> int:
         pid1, pid2, idx1, idx2 = relations
         if EqPathParallelSpecFinder._inconsistent_with_matching_info(
@@ -685,9 +703,9 @@ class EqPathParallelSpecFinder(
                 return EqPathParallelSpecFinder._INVALID
             sp1[id1], sp2[id2] = (), ()
             return EqPathParallelSpecFinder._VALID
-        # If both ids are set we still need to check if they are valid in terms
-        # of eq paths since we may have arrived from different parents.
-        if id1 in sp1 and id2 in sp2:
+        # If the ids have been compared we still need to check if they are valid in
+        # terms of eq paths since we may have arrived from different parents.
+        if (id1, id2) in matched:
             if self._eq_path_matches(
                 id1, id2, pid1, pid2, idx1, idx2, sp1, sp2, eq_path_tracker
             ):
-- 
2.43.0


From 42903114531f143d7f1798b9897dc5bf0f6a5ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:04 +0000
Subject: [PATCH 13/13] fix: cached equivalence path comparison ignored which
 child the path starts at

---
 comb_spec_searcher/bijection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index aabadf4..80e0702 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -60,7 +60,9 @@ RuleClassification = DefaultDict[
 EqPathTracker = DefaultDict[
     Tuple[int, int],
     DefaultDict[
-        Tuple[int, int],
+        Tuple[
+            int, int, int, int, Optional[Tuple[int, ...]], Optional[Tuple[int, ...]]
+        ],
         Dict[Tuple[Tuple[int, ...], Tuple[int, ...]], bool],
     ],
 ]
@@ -780,7 +782,9 @@ class EqPathParallelSpecFinder(
         this path match.
         """
         children = (sp1[id1], sp2[id2])
-        children_cache = cache[(id1, id2)][(pid1, pid2)]
+        # The path starts at a given child of the rules used for the parents.
+        start = (pid1, pid2, idx1, idx2, sp1.get(pid1), sp2.get(pid2))
+        children_cache = cache[(id1, id2)][start]
         if children not in children_cache:
             path1 = EquivalenceRuleExtractor(
                 self._pi1.root_eq_label,
-- 
2.43.0

