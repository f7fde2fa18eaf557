"""The obligations of each property on the current source.

Each row is (text, obligation, arguments).  An obligation yields the constructs
that break it; it holds or fails whatever the code looked like before.
"""

from .. import regions
from . import lib

G, T, I, O, D, V, N, P, C, K, J, W, A = (
    "grow_only", "together", "invalidates", "owner", "draws", "observers", "interface", "picklable", "compared",
    "keeps_terms", "json_keys", "ordered_work", "arguments",
)

CLASS_TABLES = ("comb_class_list", "label_dict", "empty_list")
RULE_TABLES = ("_rules", "_shifts")
EQ_STATE = ("parents", "weights", "verified_roots", "vertices")
QUEUE_MARKS = ("ignore",)
RULE_STORES = ("_rule_to_strategy", "_eqv_rule_to_strategy", "equivdb", "rules")
TERM_STORES = ("terms_cache", "objects_cache")
PICKLED = (
    "CombinatorialSpecificationSearcher", "ClassDB", "LabelToInfo", "ClassToInfo", "DefaultQueue", "CSSQueue",
    "EquivalenceDB", "RuleDBAbstract", "RuleDBBase", "RuleDB", "RuleDBForgetStrategy", "RecomputingDict",
    "RuleDBForest", "TableMethod", "Function", "DefaultList", "StrategyPack", "AbstractStrategy", "TermsCache",
)

# what a function may change in its arguments; everything else is only read
MAY_CHANGE = {
    "prune": {"rdict"},
}

OBLIGATIONS = {
    "C01": [
        ("computed terms are only ever added", G, "AbstractRule", TERM_STORES),
        ("terms owned by another rule are not changed", K, "C01"),
        ("every constructor answers every question", N, "Constructor"),
        ("every rule form answers every question", N, "AbstractRule"),
        ("every rule database answers every question", N, "RuleDBAbstract"),
    ],
    "C02": [
        ("extracted rules are only ever added", G, "SpecificationRuleExtractor", ("rules_dict", "eqvparent_to_parent")),
        ("only the specification changes its rules", O, "CombinatorialSpecification", ("rules_dict",)),
        ("the finders leave the rules they are given alone", A, "tree_searcher.py", None),
    ],
    "C03": [
        ("inserted rules stay", G, "TableMethod", RULE_TABLES),
        ("a rule and its shifts are inserted together", T, "TableMethod", RULE_TABLES),
        ("only the table method changes its tables", O, "TableMethod", RULE_TABLES + ("_gap_size", "_current_gap")),
        ("nothing depends on chance or addresses", D, "C03"),
        ("asking does not change the answer", V, "TableMethod", ("function", "is_pumping", "pumping_subuniverse", "stable_subset"),
         RULE_TABLES + ("_gap_size", "_current_gap", "_rules_using_class", "_rules_pumping_class")),
    ],
    "C04": [
        ("labels stay", G, "ClassDB", CLASS_TABLES),
        ("only the searcher changes its marks", O, "CombinatorialSpecificationSearcher",
         ("tried_to_verify", "symmetry_expanded", "inferral_expanded")),
        ("marks stay", G, "CombinatorialSpecificationSearcher", ("tried_to_verify", "symmetry_expanded", "inferral_expanded")),
        ("nothing depends on chance or addresses", D, "C04"),
    ],
    "C05": [
        ("recorded rules stay", G, "RuleDB", ("_rule_to_strategy", "_eqv_rule_to_strategy")),
        ("a new rule drops the pruned universe", I, "RuleDBBase",
         ("_rule_to_strategy", "_eqv_rule_to_strategy", "rule_to_strategy", "eqv_rule_to_strategy"), "_pruned_dict"),
        ("the finders leave the rules they are given alone", A, "tree_searcher.py", None),
    ],
    "C06": [
        ("recorded edges and marks stay", G, "EquivalenceDB", ("parents", "weights", "verified_roots", "vertices")),
        ("only the equivalence database changes its state", O, "EquivalenceDB",
         ("parents", "weights", "verified_roots", "vertices", "_one_way_vertices")),
        ("asking does not change edges or marks", V, "EquivalenceDB",
         ("equivalent", "is_verified", "find_path", "find_paths", "get_explanations"), ("verified_roots", "vertices")),
        ("nothing depends on chance or addresses", D, "C06"),
    ],
    "C07": [
        ("computed objects are only ever added", G, "AbstractRule", TERM_STORES),
        ("objects owned by another rule are not changed", K, "C07"),
        ("every constructor answers every question", N, "Constructor"),
        ("every rule form answers every question", N, "AbstractRule"),
    ],
    "C08": [
        ("terms owned by another rule are not changed", K, "C08"),
        ("every constructor answers every question", N, "Constructor"),
    ],
    "C09": [
        ("terms owned by another rule are not changed", K, "C09"),
        ("every constructor answers every question", N, "Constructor"),
        ("every rule form answers every question", N, "AbstractRule"),
    ],
    "C10": [
        ("computed terms are only ever added", G, "AbstractRule", TERM_STORES),
        ("every constructor answers every question", N, "Constructor"),
        ("every rule form answers every question", N, "AbstractRule"),
    ],
    "C11": [
        ("nothing depends on chance or addresses", D, "C11"),
        ("inserted rules stay", G, "TableMethod", RULE_TABLES),
        ("only the table method changes its tables", O, "TableMethod", RULE_TABLES),
    ],
    "C12": [
        ("nothing depends on chance or addresses", D, "C12"),
        ("only the specification changes its rules", O, "CombinatorialSpecification", ("rules_dict",)),
    ],
    "C13": [
        ("recorded rules stay", G, "RuleDB", ("_rule_to_strategy", "_eqv_rule_to_strategy")),
        ("nothing depends on chance or addresses", D, "C13"),
    ],
    "C14": [
        ("every rule database answers every question", N, "RuleDBAbstract"),
        ("recorded rules stay", G, "RuleDBBase", ("_rule_to_strategy", "_eqv_rule_to_strategy")),
        ("asking does not change the rules", V, "RuleDBBase", ("contains", "is_verified", "are_equivalent", "__iter__", "__eq__"),
         RULE_STORES + ("_rule_to_strategy", "_eqv_rule_to_strategy")),
        ("asking does not change the stored rules", V, "RecomputingDict", ("__getitem__", "__iter__", "__len__", "__contains__"),
         ("rules", "only_equiv")),
    ],
    "C15": [
        ("labels stay", G, "ClassDB", CLASS_TABLES),
        ("labels stay", G, "LabelToInfo", CLASS_TABLES),
        ("the three tables grow together", T, "ClassToInfo", CLASS_TABLES),
        ("only the class database changes its tables", O, "ClassDB", ("comb_class_list", "label_dict")),
        ("nothing depends on chance or addresses", D, "C15"),
    ],
    "C16": [
        ("marks stay", G, "DefaultQueue", QUEUE_MARKS),
        ("only the queue changes its state", O, "DefaultQueue",
         ("working", "next_level", "curr_level", "staging", "_inferral_expanded", "_initial_expanded")),
        ("nothing depends on chance or addresses", D, "C16"),
        ("work is taken in a determined order", W, "C16"),
        ("the strategy lists stay", G, "CSSQueue", ("inferral_strategies", "initial_strategies", "expansion_strats")),
    ],
    "C17": [
        ("everything a search keeps can be pickled", P, PICKLED),
        ("nothing depends on chance or addresses", D, "C17"),
        ("work is taken in a determined order", W, "C17"),
        ("equality looks at the labels", C, "ClassDB", ()),
        ("equality looks at the edges and marks", C, "EquivalenceDB", ("parents", "weights", "verified_roots", "vertices")),
        ("equality looks at the rules", C, "RuleDBBase", ("rule_to_strategy", "eqv_rule_to_strategy")),
        ("showing a search does not change it", V, "CombinatorialSpecificationSearcher",
         ("status", "run_information", "_css_status", "_mem_status"),
         ("classdb", "classqueue", "ruledb", "start_label", "tried_to_verify", "symmetry_expanded", "inferral_expanded")),
    ],
    "C18": [
        ("keys are written and read in pairs", J, None),
        ("equality of packs looks at every part", C, "StrategyPack",
         ("initial_strats", "inferral_strats", "ver_strats", "expansion_strats", "symmetries", "iterative", "name")),
        ("equality of specifications looks at the root and the rules", C, "CombinatorialSpecification", ("root", "rules_dict")),
        ("equality of strategies looks at kind and settings", C, "AbstractStrategy", ("__class__",)),
    ],
    "C19": [
        ("only the specification changes its rules", O, "CombinatorialSpecification", ("rules_dict",)),
        ("expanding leaves the specification as it was", V, "CombinatorialSpecification",
         ("expand_verified", "expand_comb_class", "expand_comb_classes"),
         ("root", "rules_dict", "_class_to_label", "_label_to_class")),
        ("computed terms are only ever added", G, "AbstractRule", TERM_STORES),
    ],
    "C20": [
        ("every constructor answers every question", N, "Constructor"),
        ("terms owned by another rule are not changed", K, "C20"),
        ("nothing depends on chance or addresses", D, "C20"),
        ("asking for equations does not change the specification", V, "CombinatorialSpecification",
         ("get_equations", "get_genf", "get_function", "get_initial_conditions", "count_objects_of_size"),
         ("root", "rules_dict")),
    ],
}


class Finding:
    def __init__(self, rule, where, text, detail=""):
        self.rule, self.where, self.text, self.detail = rule, where, text, detail

    def key(self):
        return f"{self.rule}:{self.where}"


def region(ref, cur, prop):
    """The current functions of a property's region, and their new neighbours."""
    fs, _ = regions.functions(cur, prop)
    return fs


def arguments(ix, module, known):
    """Functions only read what they are handed."""
    prog = ix.prog
    for f in prog.funcs.values():
        if not f.module.endswith("/" + module):
            continue
        may = MAY_CHANGE.get(f.name, set())
        for p, line in sorted(lib.changed_params(f, prog).items()):
            if p not in may and f.name in known:
                yield f, line, f"changes its argument {p}, which belongs to the caller"


def evaluate(row, ix, ref, prop):
    kind = row[1]
    if kind == G:
        return lib.grow_only(ix, row[2], row[3])
    if kind == T:
        return lib.together(ix, row[2], row[3])
    if kind == I:
        return lib.invalidates(ix, row[2], row[3], row[4])
    if kind == O:
        return lib.owner(ix, row[2], row[3])
    if kind == D:
        return lib.draws(ix, [f for f in region(ref, ix.prog, row[2]) if not random_by_design(f)])
    if kind == V:
        return lib.observers(ix, row[2], row[3], row[4])
    if kind == N:
        return lib.interface(ix, row[2])
    if kind == P:
        return lib.picklable(ix, row[2])
    if kind == C:
        return lib.compared(ix, row[2], row[3])
    if kind == K:
        return lib.keeps_terms(ix, region(ref, ix.prog, row[2]))
    if kind == J:
        return lib.json_keys(ix)
    if kind == W:
        return lib.ordered_work(ix, region(ref, ix.prog, row[2]))
    if kind == A:
        return arguments(ix, row[2], set(ref.funcs) if ref else set(ix.prog.funcs))
    raise ValueError(kind)


def random_by_design(f):
    return "random" in f.name or f.name.startswith("_sanity_check") or f.name in ("num_key_ids",)


def run(prop, ref, cur, tier, cov, out):
    ix = lib.Index(cur)
    ix.init_only = init_only(cur)
    done = []
    total = 0
    for row in OBLIGATIONS.get(prop, ()):
        total += 1
        bad = 0
        target = row[2]
        if isinstance(target, str) and target[0].isupper() and target not in cur.classes and target not in regions.REGIONS:
            done.append({"obligation": row[0], "rule": row[1], "over": str(target), "result": "no such class"})
            continue
        for f, line, text in evaluate(row, ix, ref, prop):
            bad += 1
            where = f.qual if f is not None else str(target)
            mod = f.module if f is not None else ""
            out.append(Finding(f"obligation-{row[1]}", where, f"{mod}:{line} {where}: {text} ({row[0]})"))
        done.append({"obligation": row[0], "rule": row[1], "over": describe(row), "result": f"{bad} violation(s)"})
    cov["obligations"] = total
    cov["obligation_results"] = done


def describe(row):
    return " ".join(", ".join(map(str, x)) if isinstance(x, tuple) else str(x) for x in row[2:] if x is not None)[:200]


def init_only(prog):
    from ..effects import Effects

    return Effects(prog).init_only
