"""Which attributes a call may change, from the source of every possible callee."""

import ast

from .flow_names import MUTATORS

CONTAINERS = {
    "list", "List", "set", "Set", "dict", "Dict", "deque", "Deque", "Counter", "CounterType",
    "DefaultDict", "defaultdict", "tuple", "Tuple", "FrozenSet", "frozenset", "int", "bool",
    "str", "float", "Iterator", "Iterable", "MutableMapping", "Mapping", "Callable", "Union",
    "MutableSet",
}


def outer(ann):
    """Outermost class names of an annotation."""
    if ann is None:
        return set()
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try:
            ann = ast.parse(ann.value, mode="eval").body
        except SyntaxError:
            return set()
    if isinstance(ann, ast.Name):
        return {ann.id}
    if isinstance(ann, ast.Attribute):
        return {ann.attr}
    if isinstance(ann, ast.Subscript):
        o = outer(ann.value)
        if o & {"Optional", "Union"}:
            sl = ann.slice
            out = set()
            for e in sl.elts if isinstance(sl, ast.Tuple) else [sl]:
                out |= outer(e)
            return out
        return o
    return set()


_DIRECT = {}


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.attr_types = {}
        self.direct = {}
        self.closed = {}
        for f in prog.all_funcs():
            self._types(f)
        for c in prog.classes.values():
            for n in c.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    self.attr_types.setdefault(n.target.id, set()).update(outer(n.annotation))
            for m in c.methods.values():
                if m.kind == "property" and m.node.returns is not None:
                    self.attr_types.setdefault(m.name, set()).update(outer(m.node.returns))
        self.init_only = self._init_only()
        self.memo = set()
        writers = {}
        for f in prog.all_funcs():
            k = (id(f.node), f.qual in self.init_only)
            hit = _DIRECT.get(k)
            if hit is None or hit[0] is not f.node:
                hit = _DIRECT[k] = (f.node, self._direct(f))
            d = hit[1]
            self.direct[f.qual] = d
            for a in d[0] | d[1]:
                writers.setdefault(a, []).append(f)
        for a, fs in writers.items():
            if all(_tests(f.node, a) for f in fs):
                self.memo.add(a)
        self.written = set(writers) - self.memo
        self.readers = {}
        self.props = {
            f.name: f for f in prog.all_funcs() if f.kind == "property" and not f.setter
        }

    # ------------------------------------------------------------------

    def _types(self, f):
        anns = {a.arg: outer(a.annotation) for a in f.node.args.args + f.node.args.kwonlyargs}
        for n in ast.walk(f.node):
            tgt = val = ann = None
            if isinstance(n, ast.AnnAssign):
                tgt, val, ann = n.target, n.value, n.annotation
            elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                tgt, val = n.targets[0], n.value
            if not isinstance(tgt, ast.Attribute):
                continue
            ts = self.attr_types.setdefault(tgt.attr, set())
            if ann is not None:
                ts |= outer(ann)
            elif isinstance(val, ast.Name) and val.id in anns:
                ts |= anns[val.id]
            elif isinstance(val, ast.Call) and isinstance(val.func, ast.Name):
                ts.add(val.func.id)
            elif isinstance(val, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set, ast.Tuple)):
                ts.add("list")

    def _init_only(self):
        """Methods that only run while an object is being initialised."""
        users = {}
        for f in self.prog.all_funcs():
            for n in _attr_names(f.node):
                users.setdefault(n, set()).add(f.qual)
        out = set()
        while True:
            new = set()
            for f in self.prog.all_funcs():
                if f.cls is None or f.kind != "method" or f.name.startswith("__") or f.qual in out:
                    continue
                us = users.get(f.name, ())
                if us and all(
                    u in out or (u.endswith(".__init__") and u.split(".")[0] == f.cls.name)
                    for u in us
                ):
                    new.add(f.qual)
            if not new:
                return out
            out |= new

    def _direct(self, f):
        """(rebound, mutated, callees) of the body of f."""
        init = f.name == "__init__" or f.qual in self.init_only
        return self.scan(f.node.body, f.cls.name if f.cls else None, init,
                         {a.arg: outer(a.annotation) for a in f.node.args.args})

    def scan(self, stmts, cls, init=False, anns=None):
        reb, mut, calls = set(), set(), set()
        anns = anns or {}

        def target(t, self_ok):
            if isinstance(t, ast.Attribute):
                if not (init and isinstance(t.value, ast.Name) and t.value.id == "self"):
                    reb.add(t.attr)
            elif isinstance(t, ast.Subscript):
                r = t.value
                while isinstance(r, ast.Subscript):
                    r = r.value
                if isinstance(r, ast.Attribute):
                    if not (init and isinstance(r.value, ast.Name) and r.value.id == "self"):
                        mut.add(r.attr)
                elif isinstance(r, ast.Name) and r.id == "self":
                    calls.add(("self", "__setitem__"))
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    target(e, self_ok)
            elif isinstance(t, ast.Starred):
                target(t.value, self_ok)

        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        target(t, True)
                elif isinstance(n, (ast.AnnAssign, ast.AugAssign)):
                    if n.value is not None:
                        target(n.target, True)
                elif isinstance(n, ast.Delete):
                    for t in n.targets:
                        target(t, True)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    if any(m.kind == "property" for m in self.prog.by_method.get(n.attr, ())):
                        calls.add(("any", n.attr))
                elif isinstance(n, ast.Call):
                    fn = n.func
                    if isinstance(fn, ast.Name):
                        if fn.id == "next":
                            calls.add(("any", "__next__"))
                        else:
                            calls.add(("fn", fn.id))
                    elif isinstance(fn, ast.Attribute):
                        v = fn.value
                        if isinstance(v, ast.Name) and v.id in ("self", "cls"):
                            calls.add(("self", fn.attr))
                            continue
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                            calls.add(("super", fn.attr))
                            continue
                        root = v
                        while isinstance(root, ast.Subscript):
                            root = root.value
                        if fn.attr in MUTATORS and isinstance(root, ast.Attribute):
                            if not (init and isinstance(root.value, ast.Name) and root.value.id == "self"):
                                mut.add(root.attr)
                        ts = None
                        if isinstance(v, ast.Attribute):
                            ts = self.attr_types.get(v.attr)
                        elif isinstance(v, ast.Name):
                            ts = anns.get(v.id)
                            if not ts and fn.attr in MUTATORS:
                                ts = {"list"}
                        calls.add(("typed", fn.attr, frozenset(ts or ())))
        return reb, mut, frozenset((c, cls) for c in calls)

    def callees(self, c, cls):
        prog = self.prog
        k, n = c[0], c[1]
        if k == "fn":
            if n in prog.classes:
                f = prog.lookup(n, "__init__")
                return [f] if f else []
            tgt = None
            f = prog.funcs.get(n)
            if f is None:
                for imp in prog.imports.values():
                    if imp.get(n) in prog.funcs:
                        tgt = imp[n]
                f = prog.funcs.get(tgt)
            return [f] if f else []
        if k in ("self", "super") and cls is not None:
            return self.family(n, {cls}, up=True)
        if k == "typed":
            ts = c[2]
            pk = {t for t in ts if t in prog.classes}
            if pk:
                return self.family(n, pk, up=True)
            if ts and ts <= CONTAINERS:
                return []
        return list(prog.by_method.get(n, ()))

    def family(self, n, classes, up):
        out = []
        names = set()
        for c in classes:
            names |= {x.name for x in self.prog.mro(c)} | self.prog.descendants(c)
        for c in sorted(names):
            cc = self.prog.classes.get(c)
            if cc and n in cc.methods:
                out.append(cc.methods[n])
        return out

    def closure(self, reb, mut, calls):
        reb, mut = set(reb), set(mut)
        seen = set()
        todo = list(calls)
        done = set()
        while todo:
            item = todo.pop()
            if item in done:
                continue
            done.add(item)
            c, cls = item
            for f in self.callees(c, cls):
                if f.qual in seen:
                    continue
                seen.add(f.qual)
                r, m, cs = self.direct.get(f.qual) or self._direct(f)
                reb |= r
                mut |= m
                if cls is not None and f.cls is not None and c[0] in ("self", "super"):
                    # calls on self stay in the family of the receiver
                    todo.extend((c2, cls if c2[0] in ("self", "super") else k2) for c2, k2 in cs)
                else:
                    todo.extend(cs)
        return reb - self.memo, mut - self.memo

    def of_stmts(self, stmts, cls):
        r, m, c = self.scan(stmts, cls)
        return self.closure(r, m, c)

    def reads(self, kind, name, cls, types=frozenset()):
        """Attributes that change after construction and that a call may read."""
        k = (kind, name, cls, types)
        v = self.readers.get(k)
        if v is None:
            c = ("typed", name, types) if kind == "typed" else (kind, name)
            out, seen, done, todo = set(), set(), set(), [(c, cls)]
            while todo:
                item = todo.pop()
                if item in done:
                    continue
                done.add(item)
                c, k2 = item
                for f in self.callees(c, k2):
                    if f.qual in seen:
                        continue
                    seen.add(f.qual)
                    out |= _attr_names(f.node) & self.written
                    todo.extend((self.direct.get(f.qual) or self._direct(f))[2])
                    todo.extend(self.implicit(f))
            v = self.readers[k] = frozenset(out)
        return v

    def implicit(self, f):
        """Calls of the protocol methods of the program's own container classes."""
        out = set()
        for n in ast.walk(f.node):
            m = v = None
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                m, v = "__getitem__", n.value
            elif isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.In, ast.NotIn)):
                m, v = "__contains__", n.comparators[0]
            elif isinstance(n, (ast.For, ast.comprehension)):
                m, v = "__iter__", n.iter
            if isinstance(v, ast.Attribute):
                ts = self.attr_types.get(v.attr, set()) & set(self.prog.classes)
                if ts:
                    out.add((("typed", m, frozenset(ts)), None))
            elif isinstance(v, ast.Name) and v.id == "self" and f.cls is not None:
                out.add((("self", m), f.cls.name))
        return out

    def of_call(self, kind, name, cls, types=frozenset()):
        k = (kind, name, cls, types)
        v = self.closed.get(k)
        if v is None:
            c = ("typed", name, types) if kind == "typed" else (kind, name)
            v = self.closed[k] = self.closure((), (), [(c, cls)])
        return v


_NAMES = {}


def _attr_names(node):
    hit = _NAMES.get(id(node))
    if hit is None or hit[0] is not node:
        hit = (node, {n.attr for n in ast.walk(node) if isinstance(n, ast.Attribute)})
        _NAMES[id(node)] = hit
    return hit[1]


def _tests(node, a):
    """Does the function test attribute a before writing it (a lazy cache)?"""
    for n in ast.walk(node):
        if isinstance(n, ast.Compare) and isinstance(n.left, ast.Attribute) and n.left.attr == a:
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "hasattr":
            if len(n.args) == 2 and isinstance(n.args[1], ast.Constant) and n.args[1].value == a:
                return True
    return False
