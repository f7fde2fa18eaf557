"""Iterators, copies and closures: who holds what, and for how long.

The behaviour facts treat a sequence, its copy and a lazy walk over it alike.
This analysis decides, on the syntax tree of one function, what tells them
apart:

  one-shot     an iterator that is walked twice, or kept where it will be
  copy         a collection that is kept or handed out without the copy taken before
  snapshot     a loop over something its own body changes
  late         a closure over a loop variable that outlives the iteration
  drained      values popped out of the elements of a collection twice

`hazards` are wrong whatever the function did before; `compare` adds what only
shows against the confirmed source.
"""

import ast

from .flow_names import MUTATORS

LAZY_CALLS = {
    "map", "filter", "zip", "reversed", "enumerate", "iter",
    "chain", "from_iterable", "product", "islice", "takewhile", "dropwhile",
    "starmap", "permutations", "combinations", "groupby", "accumulate", "filterfalse", "zip_longest", "count",
}
COPY_CALLS = {"list", "tuple", "set", "frozenset", "sorted", "dict", "copy", "deepcopy", "Counter", "deque"}
SHRINK = {"remove", "discard", "pop", "popitem", "clear", "popleft"}
KEEP = {"append", "add", "insert", "appendleft", "setdefault"}
PURE_CALLS = {
    "len", "sum", "min", "max", "any", "all", "isinstance", "range", "tuple", "list", "set", "sorted", "str",
    "int", "bool", "repr", "zip", "enumerate", "reversed", "frozenset", "dict", "abs",
}
IMMUTABLE = ("Tuple", "tuple", "str", "int", "bytes", "bool", "float", "FrozenSet", "frozenset", "Callable", "Type")


def text(e):
    return ast.unparse(e)


def callee(e):
    if isinstance(e.func, ast.Name):
        return e.func.id
    if isinstance(e.func, ast.Attribute):
        return e.func.attr
    return None


def dotted(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


class Scope:
    """One function walked once, branch by branch."""

    def __init__(self, node, prog, baseline=None):
        self.prog = prog
        self.hazards = {}
        self.sinks = {}
        self.heads = {}
        self.node = node
        a = node.args
        env = {}
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            ann = text(p.annotation) if p.annotation is not None else ""
            env[p.arg] = {self.param_class(p.arg, ann)}
        if a.vararg:
            env[a.vararg.arg] = {("other",)}
        self.nexted = {
            n.args[0].id for n in ast.walk(node)
            if isinstance(n, ast.Call) and callee(n) == "next" and n.args and isinstance(n.args[0], ast.Name)
        }
        self.count = {n: 0 for n, c in env.items() if ("once", n) in c}
        self.depth = 0
        self.born = {}
        self.loops = []  # names bound by the loops around
        self.block(node.body, env)

    def param_class(self, name, ann):
        head = ann.replace("Optional[", "").split("[")[0].split(".")[-1].strip('"')
        if head in ("Iterable", "Iterator", "Generator"):
            return ("once", name)
        if head in IMMUTABLE:
            return ("other",)
        return ("alias", name)

    def hazard(self, kind, key, line, why):
        self.hazards.setdefault((kind, key), (line, why))

    # ------------------------------------------------------------ expressions

    def classes(self, e, env):
        if isinstance(e, ast.Name):
            return env.get(e.id, {("other",)})
        if isinstance(e, ast.GeneratorExp):
            return {("lazy",)}
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.List, ast.Set, ast.Dict, ast.Tuple, ast.BinOp)):
            return {("fresh",)}
        if isinstance(e, ast.Constant):
            return {("other",)}
        if isinstance(e, ast.IfExp):
            return self.classes(e.body, env) | self.classes(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            return set().union(*(self.classes(v, env) for v in e.values))
        if isinstance(e, ast.Attribute):
            return {("alias", text(e))} if dotted(e) else {("other",)}
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return {("copy", text(e.value))} if dotted(e.value) else {("fresh",)}
            return {("other",)}
        if isinstance(e, ast.NamedExpr):
            return self.classes(e.value, env)
        if isinstance(e, ast.Call):
            n = callee(e)
            if n == "cast" and len(e.args) == 2:
                return self.classes(e.args[1], env)
            if isinstance(e.func, ast.Attribute) and n == "copy" and not e.args:
                return {("copy", text(e.func.value))} if dotted(e.func.value) else {("fresh",)}
            if n in COPY_CALLS and (isinstance(e.func, ast.Name) or n in ("copy", "deepcopy")):
                if len(e.args) == 1 and dotted(e.args[0]):
                    src = self.origin(e.args[0], env)
                    return {("copy", src)}
                return {("fresh",)}
            if n in LAZY_CALLS and (
                isinstance(e.func, ast.Name) or text(e.func.value).split(".")[0] in ("itertools", "chain")
            ):
                if n in ("iter", "count") and not e.args:
                    return {("other",)}
                return {("lazy",)}
            if self.generator(e.func, n):
                return {("lazy",)}
        return {("other",)}

    def origin(self, e, env):
        if isinstance(e, ast.Name):
            for c in env.get(e.id, ()):
                if c[0] == "alias":
                    return c[1]
        return text(e)

    def generator(self, func, n):
        if n is None:
            return False
        if isinstance(func, ast.Name):
            f = self.prog.funcs.get(n)
            return f is not None and f.is_generator
        fs = self.prog.by_method.get(n, ())
        return bool(fs) and all(f.is_generator for f in fs)

    # ------------------------------------------------- one walk per iterator

    def once(self, name, env):
        """The name stands for an iterator that can be walked once."""
        c = env.get(name, ())
        return name not in self.nexted and bool(c) and all(x[0] in ("lazy", "once") for x in c)

    def consume(self, name, env, line):
        if not self.once(name, env):
            return
        inside = self.depth > self.born.get(name, 0)
        n = self.count.get(name, 0) + (2 if inside else 1)
        self.count[name] = n
        if n > 1:
            self.hazard("one-shot", name, line, f"the iterator `{name}` is walked more than once")

    def read(self, e, env):
        """Uses of one-shot names in an expression, and what hides in it."""
        if e is None:
            return
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            self.comprehension(e, env)
            return
        if isinstance(e, ast.Call):
            n = callee(e)
            self.read(e.func.value if isinstance(e.func, ast.Attribute) else None, env)
            for i, x in enumerate(list(e.args) + [k.value for k in e.keywords]):
                y = x.value if isinstance(x, ast.Starred) else x
                if isinstance(y, ast.Name) and n not in ("next", "isinstance", "type", "id", "cast"):
                    self.consume(y.id, env, e.lineno)
                elif n != "next":
                    self.read(y, env)
            if isinstance(e.func, ast.Attribute) and n in KEEP and e.args:
                self.sink(("put", n), e.args[-1], env)
                if self.loops:
                    self.late(e.args[-1], env)
            return
        if isinstance(e, ast.Compare):
            for op, c in zip(e.ops, e.comparators):
                if isinstance(op, (ast.In, ast.NotIn)) and isinstance(c, ast.Name):
                    self.consume(c.id, env, e.lineno)
        if isinstance(e, ast.YieldFrom) and isinstance(e.value, ast.Name):
            self.consume(e.value.id, env, e.lineno)
        if isinstance(e, ast.Yield) and e.value is not None:
            self.kept("yield", e.value, env)
            if self.loops:
                self.late(e.value, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.read(c, env)

    def comprehension(self, e, env):
        elts = [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
        env = dict(env)
        names = set()
        for i, g in enumerate(e.generators):
            if isinstance(g.iter, ast.Name):
                self.consume(g.iter.id, env, e.lineno)
            else:
                self.read(g.iter, env)
            if i == 0:
                self.depth += 1
                self.head(g.iter, elts + [c for g2 in e.generators for c in g2.ifs], env)
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
                    env[n.id] = {("other",)}
            for c in g.ifs:
                self.read(c, env)
        for x in elts:
            self.read(x, env)
            self.loops.append(names)
            self.late(x, env)
            self.loops.pop()
        self.depth -= 1

    def late(self, e, env):
        """A closure over a loop variable that is kept beyond the iteration."""
        parts = list(e.elts) if isinstance(e, (ast.Tuple, ast.List)) else [e]
        for x in parts:
            if isinstance(x, ast.Lambda):
                own = {p.arg for p in x.args.args + x.args.kwonlyargs + x.args.posonlyargs}
                if x.args.vararg:
                    own.add(x.args.vararg.arg)
                if x.args.kwarg:
                    own.add(x.args.kwarg.arg)
                free = {
                    n.id for n in ast.walk(x.body) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)
                } - own
                bad = free & set().union(*self.loops)
                if bad:
                    v = sorted(bad)[0]
                    self.hazard("late", v, x.lineno, f"a kept function reads the loop variable `{v}` when it is called")

    # ------------------------------------------------------------------ sinks

    def sink(self, key, e, env):
        self.sinks.setdefault(key, {})
        for c in self.classes(e, env):
            self.sinks[key].setdefault(c, e.lineno)

    def kept(self, kind, e, env):
        if isinstance(e, ast.Tuple):
            for i, x in enumerate(e.elts):
                self.sink((kind, i), x, env)
        else:
            self.sink((kind, None), e, env)

    # ------------------------------------------------------------------ loops

    def head(self, it, body, env):
        """Record how a loop walks what it walks."""
        e, eager = it, False
        for _ in range(4):
            if isinstance(e, ast.Name) and e.id in self.defs(e.id):
                break
            if isinstance(e, ast.Call) and callee(e) in ("list", "tuple", "set", "frozenset") and len(e.args) == 1:
                e, eager = e.args[0], True
                continue
            break
        cond = None
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)) and len(e.generators) == 1:
            eager = eager or not isinstance(e, ast.GeneratorExp)
            if e.generators[0].ifs:
                cond = e.generators[0].ifs
            e = e.generators[0].iter
        elif isinstance(e, ast.Call) and callee(e) == "filter" and len(e.args) == 2:
            cond, e = [e.args[0]], e.args[1]
        src = text(e)
        reads = set()
        for c in cond or ():
            own = {p.arg for x in ast.walk(c) if isinstance(x, ast.Lambda) for p in x.args.args}
            reads |= {n.id for n in ast.walk(c) if isinstance(n, ast.Name)} - own
        moved = self.touched(body)
        root = e
        while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
            root = root.func if isinstance(root, ast.Call) else root.value
        base = root.id if isinstance(root, ast.Name) else None
        self.heads.setdefault(src, []).append(
            (eager, base is not None and base in moved, bool(reads & moved), it.lineno)
        )
        if not eager:
            self.shrinks(src, body)

    def defs(self, name):
        return ()

    def touched(self, body):
        """Names through which the body may change something."""
        out = set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Call):
                    f = n.func
                    if isinstance(f, ast.Name) and f.id in PURE_CALLS:
                        continue
                    if isinstance(f, ast.Attribute):
                        out |= self.root_of(f.value)
                    for a in n.args:
                        out |= self.root_of(a.value if isinstance(a, ast.Starred) else a)
                elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out |= self.root_of(n)
        return out

    @staticmethod
    def root_of(e):
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            e = e.value
        return {e.id} if isinstance(e, ast.Name) else set()

    def shrinks(self, src, body):
        bare = src
        for tail in (".items()", ".keys()", ".values()"):
            if bare.endswith(tail):
                bare = bare[: -len(tail)]

        def visit(stmts):
            for i, s in enumerate(stmts):
                if not isinstance(s, ast.stmt):
                    continue
                leaves = any(isinstance(x, (ast.Break, ast.Return, ast.Raise)) for x in stmts[i:])
                if isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    for f in ("body", "orelse", "finalbody"):
                        sub = getattr(s, f, None) or []
                        if not leaves:
                            visit(sub)
                    continue
                if leaves:
                    continue
                for n in ast.walk(s):
                    if (
                        isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                        and n.func.attr in SHRINK and text(n.func.value) == bare
                    ) or (
                        isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Del) and text(n.value) == bare
                    ):
                        self.hazard("snapshot", bare, n.lineno, f"`{bare}` shrinks while it is walked")

        visit(body)

    # ------------------------------------------------------------- statements

    def block(self, stmts, env):
        """env after the block, or None if control does not get past it."""
        for s in stmts:
            env = self.stmt(s, env)
            if env is None:
                return None
        return env

    def bind(self, t, e, env):
        if isinstance(t, ast.Name):
            c = self.classes(e, env) if e is not None else {("other",)}
            if any(x[0] in ("lazy", "once") for x in c):
                self.count[t.id] = 0
                self.born[t.id] = self.depth
            env[t.id] = c
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = e.elts if isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) == len(t.elts) else [None] * len(t.elts)
            for x, v in zip(t.elts, vs):
                self.bind(x, v, env)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, None, env)
        elif isinstance(t, ast.Attribute) and e is not None:
            self.sink(("attr", text(t.value).split(".")[0] == "self", t.attr), e, env)
        elif isinstance(t, ast.Subscript) and e is not None:
            k = t.slice.value if isinstance(t.slice, ast.Constant) else None
            self.sink(("item", k), e, env)
            if self.loops:
                self.late(e, env)

    @staticmethod
    def join(*envs):
        envs = [e for e in envs if e is not None]
        if not envs:
            return None
        out = {}
        for e in envs:
            for k, v in e.items():
                out[k] = out.get(k, set()) | v
        return out

    def branch(self, *bodies):
        """Each (stmts, env); the counts of the branches are alternatives."""
        start = dict(self.count)
        best = None
        envs = []
        for stmts, env in bodies:
            self.count = dict(start)
            r = self.block(stmts, dict(env))
            envs.append(r)
            if r is not None:
                best = dict(self.count) if best is None else {
                    k: max(best.get(k, 0), self.count.get(k, 0)) for k in {**best, **self.count}
                }
        self.count = best if best is not None else start
        return self.join(*envs)

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            self.read(s.value, env)
            for t in s.targets:
                self.bind(t, s.value, env)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.read(s.value, env)
                self.bind(s.target, s.value, env)
            return env
        if isinstance(s, ast.AugAssign):
            self.read(s.value, env)
            if isinstance(s.value, ast.Name):
                self.consume(s.value.id, env, s.lineno)
            return env
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.read(s.value, env)
                self.kept("return", s.value, env)
            return None
        if isinstance(s, (ast.Raise, ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.If):
            self.read(s.test, env)
            return self.branch((s.body, env), (s.orelse, env))
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s, env)
        if isinstance(s, ast.With):
            for i in s.items:
                self.read(i.context_expr, env)
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            first = dict(env)
            r = self.block(s.body, env)
            if r is not None:
                r = self.block(s.orelse, r)
            keep = dict(self.count)
            outs = [r]
            for h in s.handlers:
                outs.append(self.block(h.body, self.join(first, r)))
            self.count = keep
            j = self.join(*outs)
            if s.finalbody:
                f = self.block(s.finalbody, j if j is not None else dict(first))
                return f if j is not None else None
            return j
        if isinstance(s, ast.FunctionDef):
            env[s.name] = {("other",)}
            d, l = self.depth, self.loops
            self.loops = []
            inner = dict(env)
            a = s.args
            for p in a.posonlyargs + a.args + a.kwonlyargs:
                inner[p.arg] = {self.param_class(p.arg, text(p.annotation) if p.annotation is not None else "")}
            keep = dict(self.count)
            for p in a.args:
                self.count[p.arg] = 0
                self.born[p.arg] = d
            self.block(s.body, inner)
            self.count = keep
            self.depth, self.loops = d, l
            return env
        if isinstance(s, (ast.Expr, ast.Assert, ast.Delete)):
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.read(c, env)
            return env
        return env

    def loop(self, s, env):
        names = set()
        if isinstance(s, ast.For):
            if isinstance(s.iter, ast.Name):
                self.consume(s.iter.id, env, s.lineno)
            else:
                self.read(s.iter, env)
            self.head(s.iter, s.body, env)
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
                    env[n.id] = {("other",)}
        self.depth += 1
        if isinstance(s, ast.While):
            self.read(s.test, env)
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
        self.loops.append(names)
        leaves = bool(s.body) and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Break))
        if leaves:
            self.depth -= 1
        r = self.block(s.body, dict(env))
        if not leaves:
            self.depth -= 1
        self.loops.pop()
        env = self.join(env, r)
        if s.orelse:
            e2 = self.block(s.orelse, dict(env))
            env = self.join(env, e2)
        return env


def drained(node):
    """Locals whose elements lose the same key at two places without being rebound."""
    out = {}
    pops = {}  # local -> [(line)]

    def elem_sources(n):
        if isinstance(n, ast.Name):
            return {n.id}
        if isinstance(n, ast.Call) and callee(n) in ("zip", "enumerate", "reversed", "iter"):
            return {x for a in n.args for x in elem_sources(a)}
        return set()

    def walk(stmts, elems, done):
        for s in stmts:
            done = one(s, elems, done)
            if done is None:
                return None
        return done

    def scan(e, elems, done):
        for c in ast.walk(e):
            if isinstance(c, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
                for g in c.generators:
                    src = elem_sources(g.iter)
                    for n in ast.walk(g.target):
                        if isinstance(n, ast.Name):
                            elems.setdefault(n.id, set()).update(src)
        for c in ast.walk(e):
            if (
                isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "pop"
                and len(c.args) == 1 and isinstance(c.args[0], ast.Constant)
                and isinstance(c.args[0].value, str) and isinstance(c.func.value, ast.Name)
            ):
                for v in elems.get(c.func.value.id, ()):
                    k = (v, c.args[0].value)
                    if k in done:
                        out.setdefault(v, c.lineno)
                    done = done | {k}
        return done

    def one(s, elems, done):
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is not None:
                done = scan(s.value, elems, done)
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in ts:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            done = {k for k in done if k[0] != n.id}
            return done
        if isinstance(s, ast.If):
            done = scan(s.test, elems, done)
            a, b = walk(s.body, elems, done), walk(s.orelse, elems, done)
            return None if a is None and b is None else (a or set()) | (b or set())
        if isinstance(s, ast.For):
            done = scan(s.iter, elems, done)
            src = elem_sources(s.iter)
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name):
                    elems.setdefault(n.id, set()).update(src)
            r = walk(s.body, elems, done)
            return done | (r or set())
        if isinstance(s, ast.While):
            r = walk(s.body, elems, done)
            return done | (r or set())
        if isinstance(s, (ast.With, ast.Try)):
            r = walk(s.body, elems, done)
            return done | (r or set())
        if isinstance(s, (ast.Break, ast.Continue, ast.Raise)):
            return done
        if isinstance(s, (ast.Return, ast.Expr, ast.AugAssign)):
            if s.value is not None:
                done = scan(s.value, elems, done)
            return None if isinstance(s, ast.Return) else done
        return done

    walk(node.body, {}, set())
    return out


def truncated(node):
    """Line of a zip that compares two objects and stops at the shorter one."""
    if node.name != "__eq__":
        return None
    zips = []
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            if callee(n) == "len":
                return None
            if callee(n) == "zip" and len(n.args) > 1 and not any(k.arg == "strict" for k in n.keywords):
                zips.append(n.lineno)
    return zips[0] if zips else None


_MEMO = {}


def scope(node, prog):
    k = (id(node), id(prog))
    if k not in _MEMO or _MEMO[k][0] is not node:
        sc = Scope(node, prog)
        for v, line in drained(node).items():
            sc.hazard("drained", v, line, f"the elements of `{v}` lose the same key twice")
        _MEMO[k] = (node, sc)
    return _MEMO[k][1]


def absolute(node, prog):
    return scope(node, prog).hazards


def compare(rnode, cnode, ref, cur):
    """What the current function does wrong that the confirmed one did not."""
    r, c = scope(rnode, ref), scope(cnode, cur)
    out = []
    kinds = {}
    for (kind, key) in r.hazards:
        kinds[kind] = kinds.get(kind, 0) + 1
    for (kind, key), (line, why) in sorted(c.hazards.items(), key=str):
        if (kind, key) in r.hazards or kinds.get(kind, 0) >= sum(k == kind for k, _ in c.hazards):
            continue
        out.append((line, why))
    for key, cc in sorted(c.sinks.items(), key=str):
        rc = r.sinks.get(key)
        if rc is None:
            continue
        rk = {x[0] for x in rc}
        where = {"attr": "kept in `%s`" % key[-1], "item": "kept in an item", "put": "kept in a collection",
                 "yield": "yielded", "return": "returned"}[key[0]]
        for x, line in sorted(cc.items(), key=str):
            if x[0] in ("lazy", "once") and not rk & {"lazy", "once"} and (key[0] == "attr" or "other" not in rk):
                out.append((line, f"a one-shot iterator is {where}"))
            if x[0] in ("alias", "once") and ("copy", x[1]) in rc and x not in rc:
                out.append((line, f"`{x[1]}` is {where} without the copy taken before"))
    if truncated(cnode) is not None and truncated(rnode) is None:
        out.append((truncated(cnode), "sequences of different lengths can compare equal"))
    for src, hs in sorted(c.heads.items()):
        rh = r.heads.get(src)
        if not rh:
            continue
        for eager, base, cond, line in hs:
            if base and not eager and all(h[0] for h in rh):
                out.append((line, f"`{src}` is walked while the loop may change it"))
            elif cond and eager and not any(h[0] for h in rh) and any(h[2] for h in rh):
                out.append((line, f"the filter over `{src}` is decided before the loop changes what it reads"))
    return out
