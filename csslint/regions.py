"""Which functions carry which property.

A region lists `Class.method`, module level functions as `file.py:function`,
and globs of both.  Display and logging functions are in no region.
"""

import fnmatch

DISPLAY = {
    "__str__", "__repr__", "status", "_css_status", "_mem_status", "_log_status",
    "_log_spec_found", "run_information", "show", "share", "formal_step",
    "get_eq_symbol", "get_op_symbol", "get_reverse_op_symbol", "rule_info",
    "equations_string", "pretty_print_equations", "size_to_readable", "get_mem",
    "nice_pypy_mem", "to_html_representation", "_get_class_name",
    "maple_equations", "sympy_expr_to_maple", "get_maple_equations", "get_pretty_equations",
}

COUNT = [
    "utils.py:compositions", "utils.py:prod", "TermsCache.__init__", "TermsCache.append",
    "TermsCache.__getitem__", "TermsCache.__len__", "TermsCache.__iter__",
    "AbstractRule.set_subrecs", "AbstractRule.non_empty_children", "AbstractRule.children",
    "AbstractRule.get_terms", "AbstractRule.count_objects_of_size", "AbstractRule.__init__",
    "*Rule._ensure_level", "*Rule.__init__", "*Rule.constructor",
    "Constructor.param_map", "Constructor.build_param_map", "Constructor.get_terms",
    "CartesianProduct.__init__", "CartesianProduct.min_sizes", "CartesianProduct.max_sizes",
    "CartesianProduct._build_children_param_map", "CartesianProduct._valid_compositions",
    "CartesianProduct.get_extra_parameters", "CartesianProduct.get_terms",
    "CartesianProduct._new_param", "CartesianProduct.params_value_pairs_combinations",
    "DisjointUnion.__init__", "DisjointUnion.param_map", "DisjointUnion.build_param_map",
    "DisjointUnion.get_extra_parameters", "DisjointUnion.get_terms",
    "DisjointUnion._build_children_param_maps",
    "Complement.__init__", "Complement._build*", "Complement.get_terms",
    "Quotient.__init__", "Quotient.*param*", "Quotient._a", "Quotient._b", "Quotient._c",
    "Quotient._terms_to_poly", "Quotient._poly_to_terms", "Quotient.get_terms",
    "EquivalencePathRule.eqv_path_rules",
    "Strategy.__call__", "VerificationStrategy.__call__", "AbstractStrategy.extra_parameters",
    "CartesianProductStrategy.constructor", "CartesianProductStrategy.reverse_constructor",
    "DisjointUnionStrategy.constructor", "DisjointUnionStrategy.reverse_constructor",
    "Strategy.extra_parameters", "Strategy.constructor", "Strategy.reverse_constructor",
    "*Rule.to_reverse_rule", "*Rule.to_equivalence_rule", "*Rule.is_equivalence",
    "AtomStrategy.get_terms", "EmptyStrategy.get_terms", "VerificationStrategy.get_terms",
    "VerificationStrategy.get_specification", "AtomStrategy.verified", "EmptyStrategy.verified",
    "CombinatorialClass.get_terms", "CombinatorialClass.possible_parameters",
    "CombinatorialClass.is_atom", "CombinatorialClass.get_minimum_value",
    "CombinatorialClass.minimum_size_of_object", "CombinatorialClass.get_parameters",
]
SPEC = [
    "CombinatorialSpecification.__init__", "CombinatorialSpecification._enforce_labels",
    "CombinatorialSpecification._set_subrules", "CombinatorialSpecification._group_equiv_in_path",
    "CombinatorialSpecification._ungroup_equiv_path", "CombinatorialSpecification._is_valid_spec",
    "CombinatorialSpecification.get_rule", "CombinatorialSpecification.comb_classes",
    "CombinatorialSpecification.root_rule", "CombinatorialSpecification.get_label",
    "CombinatorialSpecification.get_comb_class", "CombinatorialSpecification.number_of_rules",
    "CombinatorialSpecification.__iter__", "CombinatorialSpecification.__eq__",
]
SPEC_COUNT = [
    "CombinatorialSpecification.count_objects_of_size", "CombinatorialSpecification.get_terms",
]
SEARCHER = [
    "CombinatorialSpecificationSearcher.*", "utils.py:cssmethodtimer*", "cssmethodtimer.*", "cssiteratortimer.*",
]
EXPAND = [
    "CombinatorialSpecificationSearcher.__init__", "CombinatorialSpecificationSearcher.try_verify",
    "CombinatorialSpecificationSearcher._expand*", "CombinatorialSpecificationSearcher._rules_from_strategy",
    "CombinatorialSpecificationSearcher.add_rule", "CombinatorialSpecificationSearcher._*_expand",
    "CombinatorialSpecificationSearcher.verification_strategies",
    "CombinatorialSpecificationSearcher.symmetries", "CombinatorialSpecificationSearcher.start_class",
]
CLASSDB = ["ClassDB.*", "ClassToInfo.*", "LabelToInfo.*", "class_db.py:*", "Info.*"]
QUEUE = ["DefaultQueue.*", "CSSQueue.*", "class_queue.py:*", "WorkPacket.*"]
EQUIV = ["EquivalenceDB.*", "equiv_db.py:*"]
RULEDB = ["RuleDBBase.*", "RuleDB.*", "RuleDBAbstract.*", "rule_db/abstract.py:*"]
FORGET = ["RecomputingDict.*", "RuleDBForgetStrategy.*"]
TABLE = ["DefaultList.*", "Function.*", "TableMethod.*", "ForestRuleKey.*"]
EXTRACTOR = ["ForestRuleExtractor.*"]
RULEDBFOREST = ["RuleDBForest.*"]
TREES = ["tree_searcher.py:*", "Node.*"]
EXTRACT = [
    "SpecificationRuleExtractor.*", "EquivalenceRuleExtractor.*",
]
SHIFTS = [
    "*Strategy.shifts", "*Rule.shifts", "*Rule.forest_key", "*Rule.is_two_way",
    "*Strategy.is_two_way", "*Strategy.can_be_equivalent", "*Strategy.is_reversible",
    "*Rule.is_reversible", "*Rule.is_equivalence", "AbstractRule.non_empty_children",
    "AbstractRule.children", "AbstractRule.possibly_empty", "AbstractStrategy.possibly_empty",
    "Constructor.can_be_equivalent", "Complement.can_be_equivalent",
]
RELIANCE = ["*.reliance_profile"]
PACK = ["StrategyPack.__iter__", "StrategyPack.__contains__", "StrategyPack.__eq__", "StrategyPack.add_*",
        "StrategyPack.remove_strategy", "StrategyPack.make_iterative"]
MAPS = [
    "*Rule.forward_map", "*Rule.backward_map", "*Rule.indexed_forward_map", "*Rule.indexed_backward_map",
    "NonBijectiveRule.*", "DisjointUnionStrategy.backward_map*", "*Strategy.forward_map", "*Strategy.backward_map",
]
OBJECTS = [
    "*Rule._ensure_level_objects", "*Rule.get_objects", "*Rule.generate_objects_of_size",
    "*.get_sub_objects", "*Strategy.get_objects", "CombinatorialClass.get_objects",
    "CombinatorialSpecification.get_objects", "CombinatorialSpecification.generate_objects_of_size",
]
SAMPLING = [
    "*Rule.random_sample_object_of_size", "*.random_sample_sub_objects",
    "*Strategy.random_sample_object_of_size", "CombinatorialSpecification.random_sample_object_of_size",
]
EQUATIONS = [
    "*.get_equation", "*.get_genf", "CombinatorialSpecification.get_equations",
    "CombinatorialSpecification.get_function", "CombinatorialSpecification.number_of_cvs",
    "CombinatorialSpecification.get_initial_conditions", "CombinatorialClass.get_function",
    "CombinatorialClass.initial_conditions", "utils.py:check_*", "utils.py:get_solution",
    "utils.py:taylor_expand", "*Constructor.get_extra_parameters", "CartesianProduct.get_extra_parameters",
    "DisjointUnion.get_extra_parameters",
]
ISO = ["Isomorphism.*", "ParseTreeMap.*", "isomorphism.py:*",
       "Bijection.construct", "Bijection.__init__", "Bijection.map", "Bijection.inverse_map", "Bijection._perm_inv",
       "Bijection.domain", "Bijection.codomain"]
EQUIVCHECK = ["*.equiv", "Constructor.extra_params_equiv", "Constructor._extra_params*"]
JSON = ["*.to_jsonable", "*.from_dict", "*.from_json", "*.from_bytes", "*.to_bytes", "Bijection._classes_to_array",
        "Bijection._populate_json_map", "strategies/strategy.py:strategy_from_dict", "strategies/strategy.py:_settings"]
STRATEQ = ["AbstractStrategy.__eq__", "StrategyFactory.__eq__", "StrategyFactory.__hash__", "*Rule.__eq__",
           "StrategyPack.__eq__", "CombinatorialSpecification.__eq__", "AbstractStrategy.__init__",
           "*Strategy.__init__"]
SANITY = ["*.sanity_check", "Rule._sanity_check*", "utils.py:equal_counters"]

REGIONS = {
    "C01": COUNT + SPEC + SPEC_COUNT + SEARCHER + RULEDB + FORGET + RULEDBFOREST + EXTRACTOR + TABLE
    + EXTRACT + SHIFTS + CLASSDB + EQUIV + TREES + PACK + SANITY,
    "C02": SPEC + EXTRACT + RULEDB + RULEDBFOREST + EXTRACTOR + TABLE + TREES + SHIFTS + EQUIV
    + ["*Rule.__init__", "*Rule.to_reverse_rule", "*Rule.to_equivalence_rule", "EquivalencePathRule.*",
       "AbstractRule.children", "AbstractRule.non_empty_children", "*Rule.__eq__", "EmptyStrategy.*",
       "Strategy.__call__", "VerificationStrategy.__call__", "AtomStrategy.verified", "VerificationStrategy.verified",
       "CombinatorialSpecification.expand_*"],
    "C03": TABLE + ["RuleDBForest.is_verified", "RuleDBForest.has_specification", "RuleDBForest.add", "RuleDBForest.__init__",
                    "RuleDBForest._add_empty_rule"],
    "C04": EXPAND + CLASSDB + ["RuleDBBase.add", "RuleDBBase._clean_labels", "RuleDBBase.__init__", "RuleDB.__init__",
                               "RuleDBForest.add", "RuleDBForest._add_empty_rule", "RuleDBForest.__init__",
                               "CombinatorialSpecificationSearcher.do_level", "CombinatorialSpecificationSearcher._expand_classes_for"]
    + ["Strategy.__call__", "VerificationStrategy.__call__", "AbstractRule.children", "AbstractRule.ignore_parent",
       "AbstractRule.inferrable", "AbstractRule.possibly_empty", "AbstractRule.workable", "*Rule.strategy", "*Rule.__init__",
       "AbstractRule.__init__", "*Strategy.__init__", "AbstractStrategy.ignore_parent", "AbstractStrategy.inferrable",
       "AbstractStrategy.possibly_empty", "AbstractStrategy.workable", "SymmetryStrategy.*", "EmptyStrategy.verified",
       "AtomStrategy.verified", "VerificationStrategy.verified", "VerificationStrategy.decomposition_function"]
    + SHIFTS + ["StrategyPack.__iter__"],
    "C05": TREES + RULEDB + EQUIV + ["RuleDBAbstract.*"],
    "C06": EQUIV + ["RuleDBBase.add", "RuleDBBase.are_equivalent", "RuleDBBase.is_verified", "RuleDBBase.rules_up_to_equivalence",
                    "RuleDBBase.has_specification", "RuleDBBase.rule_from_equivalence_rule*", "RuleDBBase.get_specification_rules",
                    "RuleDBBase._get_*", "RuleDBBase._all_nodes", "RuleDBBase.pruned_dict", "RuleDBBase.__init__"]
    + ["SpecificationRuleExtractor._populate_equivalences", "SpecificationRuleExtractor._find_rule",
       "SpecificationRuleExtractor.__init__", "SpecificationRuleExtractor._populate_decompositions",
       "EquivalenceRuleExtractor.*", "SpecificationRuleExtractor.rules", "SpecificationRuleExtractor._check",
       "SpecificationRuleExtractor._no_lhs_labels", "PartialSpecificationRuleExtractor.*", "RulePathToAtomExtractor.*"],
    "C07": COUNT + MAPS + OBJECTS + SPEC + ["DisjointUnionStrategy.*", "CartesianProductStrategy.*"] + SANITY,
    "C08": COUNT + MAPS + SAMPLING + SPEC + SPEC_COUNT + OBJECTS + SANITY,
    "C09": COUNT + SANITY + ["*Rule.get_terms", "*Rule.count_objects_of_size"] + ["DisjointUnionStrategy.*", "CartesianProductStrategy.*"]
    + OBJECTS + MAPS,
    "C10": COUNT + SHIFTS + RELIANCE + ["RuleDBForest.add", "TableMethod._compute_shift", "RuleDBForest._add_empty_rule",
                                        "ForestRuleKey.*", "Function.*", "TableMethod.*"],
    "C11": EXTRACTOR + TABLE + RULEDBFOREST + SHIFTS + ["*Rule.to_reverse_rule", "*Rule.to_equivalence_rule",
                                                        "*Rule.is_equivalence", "ReverseRule.__init__", "EmptyStrategy.*"],
    "C12": ISO + EQUIVCHECK + MAPS + SPEC + ["*Rule.to_*_rule", "EquivalencePathRule.*", "EquivalenceRule.*", "ReverseRule.*",
                                             "CombinatorialSpecification.get_bijection_to", "CombinatorialSpecification.are_isomorphic",
                                             "CombinatorialClass.is_atom", "AtomStrategy.verified"],
    "C13": ["ParallelInfo.*", "ParallelSpecFinder.*", "EqPathParallelSpecFinder.*", "bijection.py:*", "SpecificationRuleExtractor.*",
            "EquivalenceRuleExtractor.*", "PartialSpecificationRuleExtractor.*", "RulePathToAtomExtractor.*", "*RuleExtractor.*"] + ISO + EQUIVCHECK
    + ["tree_searcher.py:prune", "EquivalenceDB.*", "RuleDBBase.rules_up_to_equivalence", "Node.*"],
    "C14": FORGET + RULEDB + ["RuleDBForest.*"] + EXTRACTOR + PACK + ["AbstractStrategy.__eq__", "StrategyFactory.__eq__",
                                                                  "StrategyFactory.__hash__", "*Strategy.__init__", "*Rule.is_two_way",
                                                                  "*Strategy.is_two_way", "*Rule.to_reverse_rule", "*Rule.to_equivalence_rule",
                                                                  "ReverseRule.__init__", "EquivalenceRule.__init__", "*Rule.is_equivalence", "*Rule.strategy",
                                                                  "CombinatorialSpecificationSearcher._rules_from_strategy",
                                                                  "CombinatorialSpecificationSearcher._expand_class_with_strategy"] + TREES + EQUIV,
    "C15": CLASSDB + ["CombinatorialClass.to_bytes", "CombinatorialClass.from_bytes", "CombinatorialClass.__eq__", "CombinatorialClass.__hash__"],
    "C16": QUEUE + EXPAND + ["CombinatorialSpecificationSearcher.do_level", "CombinatorialSpecificationSearcher._expand_classes_for",
                             "CombinatorialSpecificationSearcher._auto_search_rules"] + PACK,
    "C17": SEARCHER + QUEUE + CLASSDB + RULEDB + FORGET + RULEDBFOREST + EXTRACTOR + TABLE + EQUIV + ["AbstractStrategy.__eq__",
                                                                                    "StrategyPack.__eq__", "StrategyFactory.__eq__"],
    "C18": JSON + STRATEQ + ["*Rule.__init__", "StrategyPack.*", "CombinatorialSpecification.__init__", "CombinatorialSpecification._group_equiv_in_path",
                             "CombinatorialSpecification._set_subrules", "Bijection.*", "EquivalencePathRule.*", "ReverseRule.*", "EquivalenceRule.*",
                             "*Rule.to_reverse_rule", "*Rule.to_equivalence_rule", "*Rule.constructor", "ProofTree*.*", "CombinatorialSpecification._ungroup_equiv_path"],
    "C19": SPEC + ["CombinatorialSpecification.expand_*", "CombinatorialSpecification.unexpanded_verified_classes", "AlreadyVerified.*",
                   "VerificationStrategy.pack", "*Strategy.pack", "VerificationRule.pack", "VerificationRule.*", "VerificationStrategy.*",
                   "AtomStrategy.*", "EmptyStrategy.*"]
    + EXTRACTOR + RULEDBFOREST + TABLE + SEARCHER + PACK + SHIFTS + ["*Rule.to_reverse_rule", "*Rule.to_equivalence_rule"],
    "C20": EQUATIONS + SPEC + SPEC_COUNT + COUNT + ["ReverseRule.*", "EquivalencePathRule.*", "AtomStrategy.*", "EmptyStrategy.*",
                                             "VerificationStrategy.get_specification", "VerificationStrategy.pack"],
}


def _match(func, pat):
    if ":" in pat:
        mod, name = pat.split(":", 1)
        if func.cls is not None:
            return False
        return func.module.endswith("/" + mod) and fnmatch.fnmatchcase(func.name, name)
    if func.cls is None:
        return False
    return fnmatch.fnmatchcase(func.qual, pat)


def excluded(func):
    return func.name in DISPLAY or "drawer" in func.module


def functions(prog, prop):
    """Functions of prog in the region of prop, and the patterns that matched nothing."""
    pats = list(dict.fromkeys(REGIONS[prop]))
    funcs = [f for f in prog.all_funcs() if not excluded(f)]
    out, dead = [], []
    seen = set()
    for p in pats:
        hit = [f for f in funcs if _match(f, p)]
        if not hit:
            dead.append(p)
        for f in hit:
            k = (f.qual, f.setter)
            if k not in seen:
                seen.add(k)
                out.append(f)
    return out, dead


# Code a property relies on beyond the functions that state it.
FLAGS = ["AbstractRule.ignore_parent", "AbstractRule.inferrable", "AbstractRule.workable", "AbstractStrategy.ignore_parent",
         "AbstractStrategy.inferrable", "AbstractStrategy.workable", "AbstractStrategy.possibly_empty",
         "AbstractStrategy.__init__", "*Rule.strategy", "*Strategy.__init__"]
APPLY = ["CombinatorialSpecificationSearcher._rules_from_strategy", "CombinatorialSpecificationSearcher._expand_class_with_strategy",
         "CombinatorialSpecificationSearcher.add_rule", "CombinatorialSpecificationSearcher.try_verify"]
FINISH = ["CombinatorialSpecificationSearcher.has_specification", "CombinatorialSpecificationSearcher.get_specification",
          "CombinatorialSpecificationSearcher._auto_search_rules", "CombinatorialSpecificationSearcher.auto_search"]
EXPANDED = ["CombinatorialSpecification.expand_*", "AlreadyVerified.*", "CombinatorialSpecification.unexpanded_verified_classes"]

for _p, _more in {
    "C01": FLAGS + EXPANDED,
    "C02": FLAGS + APPLY + FINISH + FORGET + PACK + EXPANDED + ["ClassDB.get_class", "ClassDB.get_label", "ClassDB.is_empty", "ClassDB._is_empty"],
    "C03": ["*Rule.forest_key", "RuleDBForest.*"],
    "C04": RULEDB + FORGET + RULEDBFOREST + PACK + FLAGS,
    "C05": FORGET + FINISH,
    "C06": RULEDB + FORGET + ["*Rule.is_equivalence", "*.can_be_equivalent", "*Rule.to_equivalence_rule", "EquivalencePathRule.*", "Node.*"],
    "C07": SPEC_COUNT + ["VerificationStrategy.*", "AtomStrategy.*", "EmptyStrategy.*"],
    "C08": ["VerificationStrategy.*", "AtomStrategy.*", "EmptyStrategy.*"],
    "C09": SHIFTS,
    "C11": ["AbstractRule.__init__", "*Rule.__init__", "*Rule.strategy", "ClassDB.*"] + PACK + APPLY,
    "C12": ["AbstractRule.children", "AbstractRule.non_empty_children", "*Rule.is_equivalence", "DisjointUnionStrategy.*",
            "CombinatorialSpecification.get_objects", "CombinatorialSpecification.generate_objects_of_size"],
    "C13": SPEC + RULEDB + TREES + FINISH + MAPS + ["CombinatorialSpecificationSearcher.do_level",
                                                    "CombinatorialSpecificationSearcher._expand_classes_for"],
    "C14": TABLE + FLAGS,
    "C15": APPLY + ["CombinatorialSpecificationSearcher._symmetry_expand", "RuleDBBase._clean_labels", "RuleDBForest._add_empty_rule",
                    "RecomputingDict.__getitem__"],
    "C16": FLAGS + FINISH,
    "C18": SPEC + SHIFTS + ["ParseTreeMap.*", "AbstractRule.set_subrecs"] + FLAGS,
    "C19": CLASSDB + FLAGS,
    "C20": SHIFTS + ["VerificationStrategy.*"],
}.items():
    REGIONS[_p] = REGIONS[_p] + _more
