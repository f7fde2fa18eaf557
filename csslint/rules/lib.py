"""Obligations over the current source alone: sites, closures and tables."""

import ast

from ..flow_names import MUTATORS

SHRINK = {"pop", "popleft", "popitem", "remove", "discard", "clear", "difference_update",
          "intersection_update", "symmetric_difference_update", "subtract"}
GROW = {"append", "add", "extend", "update", "insert", "appendleft", "extendleft", "setdefault"}


class Site:
    """One place where state reached through an attribute changes."""

    __slots__ = ("attr", "op", "base", "depth", "line", "value")

    def __init__(self, attr, op, base, depth, line, value=None):
        self.attr, self.op, self.base, self.depth, self.line, self.value = attr, op, base, depth, line, value


def path(e, alias):
    """(base name, attr, subscripts) of `base.attr[..]..`, through local aliases."""
    depth = 0
    while isinstance(e, ast.Subscript):
        e, depth = e.value, depth + 1
    if isinstance(e, ast.Name):
        hit = alias.get(e.id)
        return (hit[0], hit[1], hit[2] + depth) if hit else None
    if isinstance(e, ast.Attribute):
        b = e.value
        if isinstance(b, ast.Name):
            hit = alias.get(b.id)
            return ((hit[1] if hit else b.id), e.attr, depth)
        if isinstance(b, ast.Attribute):
            return (b.attr, e.attr, depth)
        return ("?", e.attr, depth)
    return None


def aliases(node):
    """Local names bound once, to a path through an attribute."""
    bound = {}
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            bound[n.id] = bound.get(n.id, 0) + 1
    out = {}
    for _ in range(2):
        for n in ast.walk(node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                if bound.get(n.targets[0].id) == 1:
                    p = path(n.value, out)
                    if p is not None:
                        out[n.targets[0].id] = p
    return out


def sites(func):
    node = func.node
    al = aliases(node)
    out = []

    def put(e, op, line, value=None):
        p = path(e, al)
        if p is not None:
            out.append(Site(p[1], op, p[0], p[2], line, value))

    for n in ast.walk(node):
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            targets = n.targets if isinstance(n, ast.Assign) else [n.target]
            if isinstance(n, ast.AnnAssign) and n.value is None:
                continue
            flat = []
            for t in targets:
                flat.extend(t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])
            for t in flat:
                if isinstance(t, ast.Subscript):
                    put(t.value, "setitem", n.lineno, n.value)
                elif isinstance(t, ast.Attribute):
                    put(t, "aug" if isinstance(n, ast.AugAssign) else "rebind", n.lineno, n.value)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    put(t.value, "del", n.lineno)
                elif isinstance(t, ast.Attribute):
                    put(t, "del", n.lineno)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            put(n.func.value, n.func.attr, n.lineno)
    return out


class Index:
    """Sites and self-calls of every function of a program."""

    def __init__(self, prog):
        self.prog = prog
        self.of = {}
        for f in prog.all_funcs():
            self.of[f.qual + (".setter" if f.setter else "")] = (f, sites(f))

    def family(self, cls):
        """Names of the class, its bases and its descendants."""
        return {c.name for c in self.prog.mro(cls)} | {cls} | set(self.prog.descendants(cls))

    def methods(self, cls):
        seen = set()
        for c in sorted(self.family(cls)):
            k = self.prog.classes.get(c)
            for m in (k.methods.values() if k else ()):
                if id(m.node) not in seen:
                    seen.add(id(m.node))
                    yield m

    def site_list(self, f):
        hit = self.of.get(f.qual + (".setter" if f.setter else ""))
        return hit[1] if hit and hit[0].node is f.node else sites(f)

    def self_calls(self, f):
        out = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls"):
                out.add(n.attr)
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Call):
                if isinstance(n.value.func, ast.Name) and n.value.func.id == "super":
                    out.add(n.attr)
        return out

    def closure(self, f, cls):
        """f and the methods of the family it reaches through self."""
        by = {}
        for m in self.methods(cls):
            by.setdefault(m.name, []).append(m)
        seen, todo = {id(f.node): f}, [f]
        while todo:
            g = todo.pop()
            for n in self.self_calls(g):
                for m in by.get(n, ()):
                    if id(m.node) not in seen:
                        seen[id(m.node)] = m
                        todo.append(m)
        return list(seen.values())

    def roots(self, cls):
        """Methods no other method of the family calls (the entry points)."""
        ms = list(self.methods(cls))
        called = set()
        for m in ms:
            called |= self.self_calls(m) - {m.name}
        return [m for m in ms if m.name not in called or not m.name.startswith("_")]


def mentions(e, attr):
    return e is not None and any(isinstance(n, ast.Attribute) and n.attr == attr for n in ast.walk(e))


def grows(s):
    return s.op in GROW or s.op in ("setitem", "aug") or (s.op == "rebind" and mentions(s.value, s.attr))


# ------------------------------------------------------------- obligations


def grow_only(ix, cls, attrs):
    """Nothing takes anything out of these, or replaces them, after construction."""
    for f, ss in ix.of.values():
        mine = f.cls is not None and f.cls.name in ix.family(cls)
        for s in ss:
            if s.attr not in attrs or (s.base == "self" and not mine):
                continue
            if mine and (f.name == "__init__" or f.qual in ix.init_only):
                continue
            if s.op in SHRINK or s.op == "del":
                yield f, s.line, f"takes something out of {cls}.{s.attr}, which only grows"
            elif s.op == "rebind" and s.depth == 0 and s.base == "self" and not mentions(s.value, s.attr):
                yield f, s.line, f"replaces {cls}.{s.attr}, which only grows"


def together(ix, cls, attrs):
    """An entry point that makes one of these grow makes all of them grow."""
    for m in ix.roots(cls):
        if m.name == "__init__":
            continue
        got = {}
        for g in ix.closure(m, cls):
            for s in ix.site_list(g):
                if s.attr in attrs and s.base == "self" and s.depth == 0 and grows(s) and g.name != "__init__":
                    got.setdefault(s.attr, (g, s.line))
        if got and set(got) != set(attrs):
            a = sorted(got)[0]
            yield got[a][0], got[a][1], f"{m.qual} makes {cls}.{a} grow without {', '.join(sorted(set(attrs) - set(got)))}"


def invalidates(ix, cls, triggers, cache, calls=()):
    """An entry point that changes what a cached answer was computed from drops the answer."""
    for m in ix.roots(cls):
        if m.name == "__init__":
            continue
        clo = ix.closure(m, cls)
        if any(g.name == cache.strip("_") or g.name == cache for g in clo[1:]) and not any(
            s.attr in triggers for g in clo for s in ix.site_list(g)
        ):
            continue
        hit = None
        for g in clo:
            if g.name == "__init__":
                continue
            for s in ix.site_list(g):
                if s.attr in triggers and s.op != "rebind":
                    hit = hit or (g, s.line)
            for n in ast.walk(g.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in calls:
                    hit = hit or (g, n.lineno)
        if hit and not any(s.attr == cache and s.op == "rebind" and s.base == "self" for g in clo for s in ix.site_list(g)):
            yield hit[0], hit[1], f"{m.qual} changes what {cls}.{cache} was computed from and keeps the old answer"


def owner(ix, cls, attrs):
    """Only the class itself changes these."""
    for f, ss in ix.of.values():
        if f.cls is not None and f.cls.name in ix.family(cls):
            continue
        for s in ss:
            if s.attr in attrs and s.base != "self":
                yield f, s.line, f"changes {cls}.{s.attr} from outside the class"


def draws(ix, funcs, allowed=()):
    """The answer does not depend on chance, the clock, addresses or hash values."""
    for f in funcs:
        if f.name == "__hash__" or f.qual in allowed:
            continue
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            g = n.func
            if isinstance(g, ast.Name) and g.id in ("id", "hash") and g.id not in _names(f.node):
                yield f, n.lineno, f"depends on {g.id}(), which differs between processes"
            elif isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name) and g.value.id in ("random", "uuid", "secrets"):
                yield f, n.lineno, f"depends on {ast.unparse(g)}()"


def _names(node):
    return {a.arg for a in node.args.args} | {
        n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)
    }


def observers(ix, cls, names, domain):
    """Questions leave the state they are asked about as it was."""
    for m in ix.methods(cls):
        if m.name not in names:
            continue
        for g in ix.closure(m, cls):
            if g.name == "__init__":
                continue
            for s in ix.site_list(g):
                if s.attr in domain and s.base == "self":
                    yield g, s.line, f"{m.qual} only answers a question, but changes {s.attr}"


def interface(ix, base):
    """A class that can be instantiated defines every abstract method of its bases."""
    prog = ix.prog
    for c in sorted(prog.descendants(base)):
        k = prog.classes.get(c)
        if k is None or prog.descendants(c) - {c} or any(m.is_abstract for m in k.methods.values()):
            continue
        need = {m.name for b in prog.mro(c) for m in b.methods.values() if m.is_abstract}
        for n in sorted(need):
            f = prog.lookup(c, n)
            if f is None or f.is_abstract:
                if n not in {t.id for s in k.node.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}:
                    yield f, k.node.lineno, f"{c} does not define {n}"


UNPICKLABLE = {"open", "Lock", "RLock", "Condition", "Thread", "iter", "map", "filter", "zip"}


def picklable(ix, classes):
    """No attribute of a pickled class holds a closure, generator, handle or lock."""
    for f, _ in ix.of.values():
        if f.cls is None or f.cls.name not in classes:
            continue
        local = {n.name for n in ast.walk(f.node) if isinstance(n, ast.FunctionDef) and n is not f.node}
        gens = {g.name for g in ix.methods(f.cls.name) if g.is_generator}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                ts, v = n.targets, n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                ts, v = [n.target], n.value
            else:
                continue
            if not any(isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" for t in ts):
                continue
            what = None
            if isinstance(v, ast.Lambda):
                what = "a lambda"
            elif isinstance(v, ast.GeneratorExp):
                what = "a generator"
            elif isinstance(v, ast.Name) and v.id in local:
                what = "a nested function"
            elif isinstance(v, ast.Call):
                g = v.func
                name = g.id if isinstance(g, ast.Name) else g.attr if isinstance(g, ast.Attribute) else ""
                if name in UNPICKLABLE:
                    what = f"the result of {name}()"
                elif isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name) and g.value.id == "self" and name in gens:
                    what = f"the generator {name}()"
                elif name in ("defaultdict", "DefaultList") and v.args:
                    a = v.args[0]
                    if isinstance(a, ast.Lambda) or (isinstance(a, ast.Name) and a.id in local):
                        what = f"a {name} with a local function"
            if what:
                yield f, n.lineno, f"keeps {what} in an attribute: the search can no longer be pickled"
        if f.name in ("__getstate__", "__reduce__", "__reduce_ex__", "__setstate__"):
            yield f, f.lineno, "changes how the object is pickled"


def compared(ix, cls, fields):
    """Equality looks at each of these fields."""
    m = ix.prog.lookup(cls, "__eq__")
    if m is None:
        k = ix.prog.classes.get(cls)
        if k is not None:
            yield None, k.node.lineno, f"{cls} has no __eq__"
        return
    seen = set()
    for g in ix.closure(m, cls):
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute):
                seen.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                seen.add(n.value)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("vars", "astuple"):
                return
    consts = {n.value for n in ast.walk(ix.prog.classes[cls].node) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    if seen & {"__dict__", "__slots__", "_fields"}:
        return
    for a in fields:
        if a not in seen and a not in consts:
            yield m, m.lineno, f"equality of {cls} no longer looks at {a}"


CACHED = {"subterms", "subobjs", "subobjects", "parent_terms", "terms_cache", "objects_cache", "subrecs", "get_terms",
          "get_objects", "parent_objects"}


def keeps_terms(ix, funcs):
    """Terms and objects that others have cached are not changed in place."""
    for f in funcs:
        held = {}
        bound = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                bound[n.id] = bound.get(n.id, 0) + 1
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                if bound[n.targets[0].id] == 1 and borrowed(n.value):
                    held[n.targets[0].id] = n.lineno
        for n in ast.walk(f.node):
            e = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                e = n.func.value
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                e = n.value
            if e is None:
                continue
            while isinstance(e, ast.Subscript) and not borrowed(e):
                e = e.value
            if (isinstance(e, ast.Name) and e.id in held) or (isinstance(e, ast.Call) and borrowed(e)):
                yield f, n.lineno, "changes terms or objects that the rule they came from has cached"


def borrowed(e):
    """`subterms[i](n)`, `parent_terms(n)`, `rule.get_terms(n)`: owned by someone else."""
    if not isinstance(e, ast.Call):
        return False
    g = e.func
    while isinstance(g, ast.Subscript):
        g = g.value
    name = g.id if isinstance(g, ast.Name) else g.attr if isinstance(g, ast.Attribute) else ""
    return name in CACHED


def json_keys(ix):
    """A key that is read back was written, and a key that is written is read back."""
    writers, readers = {}, {}
    text = {}
    for f, _ in ix.of.values():
        text[f.qual] = {n.value for n in ast.walk(f.node) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    shared = {a.arg for f, _ in ix.of.values() for a in f.node.args.args + f.node.args.kwonlyargs}
    for t in ix.prog.modules.values():
        for s in t.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                shared |= {n.value for n in ast.walk(s.value) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
            elif isinstance(s, ast.ClassDef):
                for b in s.body:
                    if isinstance(b, (ast.Assign, ast.AnnAssign)) and b.value is not None:
                        shared |= {n.value for n in ast.walk(b.value) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    for f, _ in ix.of.values():
        if f.name in ("to_jsonable",):
            writers[f.qual] = (f, written(f.node))
        elif f.name in ("from_dict", "from_json", "strategy_from_dict", "_from_dict"):
            readers[f.qual] = (f, read(f.node))
    if not writers or not readers:
        return
    for q, (f, ks) in sorted(readers.items()):
        for k, line in sorted(ks.items()):
            if k in ix.prog.classes or k in shared or optional(f.node, k):
                continue
            if not any(k in text[w] for w in text if w not in readers):
                yield f, line, f"reads the key {k!r}, which nothing writes"
    for q, (f, ks) in sorted(writers.items()):
        for k, line in sorted(ks.items()):
            if k not in shared and not any(k in text[r] for r in text if r != q and r not in writers):
                yield f, line, f"writes the key {k!r}, which nothing reads back"


def written(node):
    out = {}
    for n in ast.walk(node):
        if isinstance(n, ast.Dict):
            for k in n.keys:
                if isinstance(k, ast.Constant) and isinstance(k.value, str):
                    out[k.value] = k.lineno
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                out[n.slice.value] = n.lineno
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "dict":
            for k in n.keywords:
                if k.arg:
                    out[k.arg] = n.lineno
    return out


def read(node):
    out = {}
    for n in ast.walk(node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                out[n.slice.value] = n.lineno
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and n.args:
            a = n.args[0]
            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                out[a.value] = n.lineno
    return out


def ordered_work(ix, funcs):
    """Work is not taken in the order in which a set happens to be walked."""
    for f in funcs:
        sets = {}
        bound = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                bound[n.id] = bound.get(n.id, 0) + 1
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                if is_set(n.value) and bound[n.targets[0].id] == 1:
                    sets[n.targets[0].id] = n.lineno
        for n in ast.walk(f.node):
            if isinstance(n, (ast.For, ast.AsyncFor)):
                it = n.iter
                if is_set(it) or (isinstance(it, ast.Name) and it.id in sets):
                    if any(isinstance(x, (ast.Call, ast.Yield)) for b in n.body for x in ast.walk(b)):
                        yield f, n.lineno, "works through a set: the order of the work is not determined"


def optional(node, k):
    """The reader asks whether the key is there before it uses it."""
    for n in ast.walk(node):
        if isinstance(n, ast.Compare) and isinstance(n.left, ast.Constant) and n.left.value == k:
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop") and len(n.args) > 1:
            if isinstance(n.args[0], ast.Constant) and n.args[0].value == k:
                return True
    return False


def is_set(e):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset") and bool(e.args)


def changed_params(func, prog, depth=2):
    """Parameters that the body certainly changes in place (or rebinds an item of)."""
    node = func.node
    names = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
    alias = {n: n for n in names}
    bound = {}
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            bound[n.id] = bound.get(n.id, 0) + 1
    for p in names:
        if bound.get(p):
            alias.pop(p)
    for n in ast.walk(node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            if bound[n.targets[0].id] == 1 and isinstance(n.value, ast.Name) and n.value.id in alias:
                alias[n.targets[0].id] = alias[n.value.id]
    out = {}
    for n in ast.walk(node):
        e = None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            e = n.func.value
            if n.func.attr in ("add", "update", "pop", "remove", "insert") and isinstance(e, ast.Name):
                # a method of a package class may have the same name
                if _own_class(node, alias.get(e.id), prog):
                    e = None
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            e = n.value
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
            e = n.value
        if e is None:
            continue
        while isinstance(e, ast.Subscript):
            e = e.value
        if isinstance(e, ast.Name) and e.id in alias and alias[e.id] not in ("self", "cls"):
            out.setdefault(alias[e.id], n.lineno)
    return out


def _own_class(node, param, prog):
    for a in node.args.args + node.args.kwonlyargs:
        if a.arg == param and a.annotation is not None:
            t = ast.unparse(a.annotation)
            return any(c in t for c in prog.classes)
    return False
