"""Annotations a rewrite left out.

An annotation has no effect at run time, but what a value may be (never None, a dictionary of lists) is read from it. Where the
current program says nothing and the confirmed one does, for the same parameter or for the same attribute with the same
initial value, the confirmed annotation is used.
"""
import ast
import copy

from .model import Program


def attributes(cls):
    """attribute -> (annotation, dump of the value) as declared with `self.x: T = v`."""
    out = {}
    for n in ast.walk(cls):
        if isinstance(n, ast.AnnAssign) and n.value is not None and is_self(n.target):
            out[n.target.attr] = (n.annotation, ast.dump(n.value))
    return out


def is_self(t):
    return isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self"


def functions(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield None, n
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield n.name, m


def args(f):
    a = f.args
    return a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]


class _Attributes(ast.NodeTransformer):
    def __init__(self, wanted):
        self.wanted, self.n = wanted, 0

    def visit_Assign(self, n):
        if len(n.targets) == 1 and is_self(n.targets[0]):
            ann = self.wanted.get(n.targets[0].attr)
            if ann is not None and ast.dump(n.value) == ann[1]:
                self.n += 1
                return ast.copy_location(
                    ast.AnnAssign(target=n.targets[0], annotation=ann[0], value=n.value, simple=0), n
                )
        return n


def adopt(ref, cur):
    changed, trees = False, {}
    for rel, tree in cur.modules.items():
        trees[rel] = tree
        old = ref.modules.get(rel)
        if old is None or ast.dump(old) == ast.dump(tree):
            continue
        new = copy.deepcopy(tree)
        n = 0
        known = {(c, f.name): f for c, f in functions(old)}
        for c, f in functions(new):
            g = known.get((c, f.name))
            if g is None:
                continue
            anns = {a.arg: a.annotation for a in args(g) if a.annotation is not None}
            for a in args(f):
                if a.annotation is None and a.arg in anns:
                    a.annotation = anns[a.arg]
                    n += 1
            if f.returns is None and g.returns is not None:
                f.returns = g.returns
                n += 1
        olds = {x.name: attributes(x) for x in old.body if isinstance(x, ast.ClassDef)}
        for x in new.body:
            if isinstance(x, ast.ClassDef) and olds.get(x.name):
                have = attributes(x)
                tr = _Attributes({k: v for k, v in olds[x.name].items() if k not in have})
                tr.visit(x)
                n += tr.n
        if n:
            changed = True
            trees[rel] = ast.fix_missing_locations(new)
    return Program(None, trees) if changed else cur
