"""Which parameters of a function it changes, from its source.

A parameter is changed when something reached from it (by attribute, item or a
loop over it) is the receiver of a mutating method, the target of a store or
delete, or is handed to a function that changes what it is given.
"""

import ast

from .flow_names import MUTATORS

OUTSIDE = {"heappush", "heappop", "heapify", "shuffle", "heapreplace", "next", "insort"}


def _names(node):
    a = node.args
    out = [p.arg for p in a.posonlyargs + a.args]
    return out, (a.vararg.arg if a.vararg else None), [p.arg for p in a.kwonlyargs]


def root(e):
    while True:
        if isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)):
            e = e.value
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in (
            "values", "items", "get", "setdefault", "keys",
        ):
            e = e.func.value
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in (
            "zip", "enumerate", "iter", "reversed", "map",
        ) and e.args:
            return {x for a in e.args for x in root(a)}
        elif isinstance(e, ast.Name):
            return {e.id}
        elif isinstance(e, (ast.Tuple, ast.List)):
            return {x for a in e.elts for x in root(a)}
        else:
            return set()


class Summary:
    """What one def changes directly, and whom it hands its parameters to."""

    __slots__ = ("names", "kwonly", "var", "changed", "calls")

    def __init__(self, node):
        names, var, kwonly = _names(node)
        self.names, self.var, self.kwonly = names, var, kwonly
        alias = {n: {n} for n in set(names) | set(kwonly) | ({var} if var else set())}
        changed = set()

        def src(e):
            return {p for r in root(e) for p in alias.get(r, ())}

        nodes = list(ast.walk(node))
        for _ in range(2):
            for n in nodes:
                if isinstance(n, ast.Assign):
                    s = src(n.value)
                    if not s:
                        continue
                    for t in n.targets:
                        for x in [t] if isinstance(t, ast.Name) else t.elts if isinstance(t, (ast.Tuple, ast.List)) else []:
                            if isinstance(x, ast.Name):
                                alias.setdefault(x.id, set()).update(s)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    s = src(n.iter)
                    if s:
                        for x in ast.walk(n.target):
                            if isinstance(x, ast.Name):
                                alias.setdefault(x.id, set()).update(s)
        self.calls = []
        local = {f.name: f for f in nodes if isinstance(f, ast.FunctionDef) and f is not node}
        for n in nodes:
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                    changed |= src(f.value)
                name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
                if name is None:
                    continue
                given = []
                for i, a in enumerate(n.args):
                    given.append((None if isinstance(a, ast.Starred) else i, src(a)))
                for kwd in n.keywords:
                    given.append((kwd.arg, src(kwd.value)))
                given = [g for g in given if g[1]]
                if given:
                    is_attr = isinstance(f, ast.Attribute)
                    target = local.get(name) if not is_attr else None
                    self.calls.append((name, is_attr, target, given))
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                changed |= src(n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                changed |= src(n.target)
        self.changed = changed

    def positions(self):
        out = set()
        for i, p in enumerate(self.names):
            if p in self.changed:
                out |= {i, p}
        out |= {p for p in self.kwonly if p in self.changed}
        if self.var in self.changed:
            out |= set(range(len(self.names), len(self.names) + 6))
        return out


class Params:
    def __init__(self, prog):
        self.prog = prog
        self.sums = {}
        todo = [f.node for f in prog.funcs.values()]
        for fs in prog.by_method.values():
            todo += [f.node for f in fs]
        self.settle([n for n in todo if isinstance(n, ast.FunctionDef)])

    def settle(self, nodes):
        fresh = []
        for n in nodes:
            for d in ast.walk(n):
                if isinstance(d, ast.FunctionDef) and id(d) not in self.sums:
                    self.sums[id(d)] = (d, Summary(d))
                    fresh.append(d)
        again = True
        while again:
            again = False
            for d in fresh:
                s = self.sums[id(d)][1]
                for name, is_attr, target, given in s.calls:
                    got = self.known(target) if target is not None else self.of_name(name, is_attr)
                    if not got:
                        continue
                    for pos, who in given:
                        if (pos is None or pos in got) and not who <= s.changed:
                            s.changed |= who
                            again = True

    def known(self, node):
        k = self.sums.get(id(node))
        return k[1].positions() if k is not None else set()

    def of_node(self, node):
        """Positions (and keyword names) of changed parameters of a def."""
        if not isinstance(node, ast.FunctionDef):
            return set()
        k = self.sums.get(id(node))
        if k is None or k[0] is not node:
            self.settle([node])
        return self.known(node)

    def of_name(self, name, is_attr):
        """The same for the calls of a name, positions without the receiver."""
        if name in OUTSIDE:
            return {0}
        out = set()
        if is_attr:
            for f in self.prog.by_method.get(name, ()):
                got = self.known(f.node)
                if f.kind == "static":
                    out |= got
                else:
                    out |= {x - 1 if isinstance(x, int) else x for x in got if x != 0}
        else:
            f = self.prog.funcs.get(name)
            if f is not None:
                out |= self.known(f.node)
            if name in self.prog.classes:
                f = self.prog.lookup(name, "__init__")
                if f is not None:
                    out |= {x - 1 if isinstance(x, int) else x for x in self.known(f.node) if x != 0}
        return out
