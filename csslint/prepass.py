"""Source to source normalisation that runs before a function is evaluated.

localise: a rebinding inside a loop that no later iteration and no later
statement can see is a new local (the loop is left right after it).
"""

import ast
import copy

from .idioms import idioms

_CACHE = {}


class _Flow:
    """Which way control leaves a block, and whether the mark was passed."""

    def __init__(self, mark):
        self.mark = mark

    def block(self, stmts, flags):
        """flags: the set of booleans possible on entry.  Returns a dict
        fall/break/continue -> set of booleans (leaving the function is dropped)."""
        out = {"fall": set(), "break": set(), "continue": set()}
        cur = set(flags)
        for s in stmts:
            if not cur:
                break
            r = self.stmt(s, cur)
            out["break"] |= r["break"]
            out["continue"] |= r["continue"]
            cur = r["fall"]
        out["fall"] = cur
        return out

    def stmt(self, s, flags):
        none = {"fall": set(), "break": set(), "continue": set()}
        if s is self.mark:
            return dict(none, fall={True})
        if isinstance(s, (ast.Return, ast.Raise)):
            return none
        if isinstance(s, ast.Break):
            return dict(none, **{"break": set(flags)})
        if isinstance(s, ast.Continue):
            return dict(none, **{"continue": set(flags)})
        if isinstance(s, ast.If):
            a, b = self.block(s.body, flags), self.block(s.orelse, flags)
            return {k: a[k] | b[k] for k in a}
        if isinstance(s, (ast.For, ast.While)):
            entry = set(flags)
            brk = set()
            while True:
                r = self.block(s.body, entry)
                brk |= r["break"]
                new = entry | r["fall"] | r["continue"]
                if new == entry:
                    break
                entry = new
            e = self.block(s.orelse, entry)
            return {"fall": e["fall"] | brk, "break": e["break"], "continue": e["continue"]}
        if isinstance(s, ast.With):
            return self.block(s.body, flags)
        if isinstance(s, ast.Try):
            every = set(flags)
            if any(x is self.mark for x in ast.walk(s)):
                every.add(True)
            out = self.block(s.body, flags)
            e = self.block(s.orelse, out["fall"])
            out = {"fall": e["fall"], "break": out["break"] | e["break"],
                   "continue": out["continue"] | e["continue"]}
            for h in s.handlers:
                r = self.block(h.body, every)
                out = {k: out[k] | r[k] for k in out}
            if s.finalbody:
                r = self.block(s.finalbody, out["fall"] | every)
                out = {k: out[k] | r[k] for k in out}
            return out
        return dict(none, fall=set(flags))


def _suites(node):
    for f in ("body", "orelse", "finalbody"):
        b = getattr(node, f, None)
        if isinstance(b, list):
            yield b


def _carried(loop, mark):
    r = _Flow(mark).block(loop.body, {False})
    return True in (r["fall"] | r["continue"])


class _Assigned:
    """Whether a name can be read before an iteration has assigned it."""

    def __init__(self, name):
        self.name = name
        self.bad = False

    def uses(self, e, done):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and n.id == self.name and isinstance(n.ctx, ast.Load) and not done:
                self.bad = True

    def binds(self, t):
        return any(
            isinstance(n, ast.Name) and n.id == self.name and isinstance(n.ctx, ast.Store)
            for n in ast.walk(t)
        )

    def block(self, stmts, done):
        for s in stmts:
            done = self.stmt(s, done)
            if done is None:
                return None
        return done

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a and b

    def stmt(self, s, done):
        """done: assigned for sure; None: control does not get past."""
        if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            self.uses(s, done)
            return None
        if isinstance(s, ast.If):
            self.uses(s.test, done)
            done = done or self.binds(s.test)
            return self.join(self.block(s.body, done), self.block(s.orelse, done))
        if isinstance(s, ast.For):
            self.uses(s.iter, done)
            self.block(s.body, done or self.binds(s.target))
            self.block(s.orelse, done)
            return done
        if isinstance(s, ast.While):
            self.uses(s.test, done)
            self.block(s.body, done)
            self.block(s.orelse, done)
            return done
        if isinstance(s, ast.Try):
            b = self.block(s.body, done)
            if b is not None:
                b = self.block(s.orelse, b)
            for h in s.handlers:
                b = self.join(b, self.block(h.body, done))
            if s.finalbody:
                f = self.block(s.finalbody, done)
                b = None if b is None or f is None else b or f
            return b
        if isinstance(s, ast.With):
            for i in s.items:
                self.uses(i.context_expr, done)
                if i.optional_vars is not None and self.binds(i.optional_vars):
                    done = True
            return self.block(s.body, done)
        if isinstance(s, ast.Assign):
            self.uses(s.value, done)
            for t in s.targets:
                self.uses(t, done)
            return done or any(self.binds(t) for t in s.targets)
        if isinstance(s, ast.AugAssign):
            if not done and self.binds(s.target):
                self.bad = True
            self.uses(s.value, done)
            return done
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.uses(s.value, done)
                return done or self.binds(s.target)
            return done
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            self.uses(s, done)
            return done or s.name == self.name
        self.uses(s, done)
        return done or self.binds(s)


def read_first(body, name):
    a = _Assigned(name)
    a.block(body, False)
    return a.bad


def localise(node):
    k = id(node)
    if k in _CACHE and _CACHE[k][0] is node:
        return _CACHE[k][1]
    new = _localise(flatten(groupings(tidy(idioms(node)))))
    _CACHE[k] = (node, new)
    return new


def _simple(e):
    """Names, attributes, items and constants: cheap and without effect."""
    if isinstance(e, (ast.Name, ast.Constant)):
        return True
    if isinstance(e, ast.Attribute):
        return _simple(e.value)
    if isinstance(e, ast.Subscript):
        return _simple(e.value) and _simple(e.slice)
    if isinstance(e, ast.Tuple):
        return all(_simple(x) for x in e.elts)
    return False


def _empty(e):
    if isinstance(e, ast.List):
        return not e.elts
    if isinstance(e, ast.Dict):
        return not e.keys
    return (
        isinstance(e, ast.Call) and not e.args and not e.keywords
        and isinstance(e.func, ast.Name) and e.func.id in ("set", "list", "dict", "Counter")
    )


def _load(e):
    e = copy.deepcopy(e)
    for x in ast.walk(e):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return e


def _first(e):
    """The subexpressions evaluated before the rest of e."""
    while True:
        yield e
        if isinstance(e, ast.Call):
            e = e.func
        elif isinstance(e, (ast.Attribute, ast.Subscript)):
            e = e.value
        else:
            return


def _setdefault(s):
    """The call d.setdefault(k, empty) that statement s goes through, if any."""
    if isinstance(s, ast.Expr):
        roots = [s.value]
    elif isinstance(s, ast.Assign) and len(s.targets) == 1:
        roots = [s.value, s.targets[0]]
    elif isinstance(s, ast.AugAssign):
        roots = [s.target]
    elif isinstance(s, ast.Return) and s.value is not None:
        roots = [s.value]
    else:
        return None
    for r in roots:
        for x in _first(r):
            if (
                isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                and x.func.attr == "setdefault" and len(x.args) == 2 and not x.keywords
                and _simple(x.func.value) and _empty(x.args[1])
            ):
                return x
    return None


def _membership(t):
    """(key, container, positive) of `k in d` / `k not in d`."""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        m = _membership(t.operand)
        return m and (m[0], m[1], not m[2])
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn)):
        return t.left, t.comparators[0], isinstance(t.ops[0], ast.In)
    return None


def _first_item(s):
    """if k not in d: d[k] = {a: b} else: d[k][a] = b  --  d[k] is made first."""
    if not (isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1):
        return None
    m = _membership(s.test)
    if m is None or not _simple(m[0]) or not _simple(m[1]):
        return None
    new, old = (s.orelse[0], s.body[0]) if m[2] else (s.body[0], s.orelse[0])
    cell = ast.unparse(ast.Subscript(m[1], m[0], ast.Load()))
    if not (isinstance(new, ast.Assign) and len(new.targets) == 1 and ast.unparse(new.targets[0]) == cell):
        return None
    v = new.value
    if isinstance(v, ast.Dict) and len(v.keys) == 1 and v.keys[0] is not None:
        if (
            isinstance(old, ast.Assign) and len(old.targets) == 1
            and isinstance(old.targets[0], ast.Subscript)
            and ast.unparse(old.targets[0].value) == cell
            and ast.unparse(old.targets[0].slice) == ast.unparse(v.keys[0])
            and ast.unparse(old.value) == ast.unparse(v.values[0])
        ):
            return m, ast.Dict([], []), old
    if isinstance(v, (ast.List, ast.Set)) and len(v.elts) == 1:
        meth = "append" if isinstance(v, ast.List) else "add"
        if (
            isinstance(old, ast.Expr)
            and ast.unparse(old.value) == f"{cell}.{meth}({ast.unparse(v.elts[0])})"
        ):
            mk = ast.List([], ast.Load()) if meth == "append" else ast.Call(ast.Name("set", ast.Load()), [], [])
            return m, mk, old
    return None


def groupings(node):
    """d.setdefault(k, []) and its open-coded forms in one way."""
    if not any(
        isinstance(n, ast.If) and n.orelse or isinstance(n, ast.Attribute) and n.attr == "setdefault"
        for n in ast.walk(node)
    ):
        return node
    node = copy.deepcopy(node)
    k = 0

    def visit(n):
        nonlocal k
        for b in _suites(n):
            i = 0
            while i < len(b):
                s = b[i]
                visit(s)
                for h in getattr(s, "handlers", []):
                    visit(h)
                f = _first_item(s)
                if f is not None:
                    (key, d, _), mk, rest = f
                    make = _make(key, d, mk)
                    b[i:i + 1] = [ast.copy_location(make, s), rest]
                    i += 2
                    continue
                c = _setdefault(s)
                if c is not None:
                    pre = []
                    key, d = c.args[0], c.func.value
                    if not _simple(key):
                        tmp = f"key'{k}"
                        k += 1
                        pre = [ast.copy_location(ast.Assign([ast.Name(tmp, ast.Store())], key), s)]
                        key = ast.Name(tmp, ast.Load())
                    pre.append(ast.copy_location(_make(key, d, c.args[1]), s))
                    cell = ast.Subscript(_load(d), _load(key), ast.Load())

                    class Put(ast.NodeTransformer):
                        def visit_Call(self, x):
                            if x is c:
                                return ast.copy_location(cell, x)
                            return self.generic_visit(x)

                    b[i] = Put().visit(s)
                    if isinstance(s, ast.Expr) and s.value is cell:
                        b[i:i + 1] = pre
                    else:
                        b[i:i] = pre
                    i += len(pre)
                i += 1

    def _make(key, d, value):
        test = ast.Compare(_load(key), [ast.NotIn()], [_load(d)])
        store = ast.Assign([ast.Subscript(_load(d), _load(key), ast.Store())], copy.deepcopy(value))
        return ast.If(test, [store], [])

    visit(node)
    for x in ast.walk(node):
        if isinstance(x, ast.stmt) and not hasattr(x, "lineno"):
            x.lineno = x.col_offset = node.lineno
    return ast.fix_missing_locations(node)


def _own_break(stmts):
    """A break that leaves the loop these statements are the body of."""
    for s in stmts:
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, (ast.For, ast.While)):
            if _own_break(s.orelse):
                return True
            continue
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        for b in _suites(s):
            if _own_break(b):
                return True
        for h in getattr(s, "handlers", []):
            if _own_break(h.body):
                return True
    return False


def _nest(s):
    return (
        isinstance(s, ast.While)
        and isinstance(s.test, ast.Constant)
        and s.test.value
        and not s.orelse
        and bool(s.body)
        and isinstance(s.body[0], ast.While)
        and not s.body[0].orelse
        and not (isinstance(s.body[0].test, ast.Constant) and s.body[0].test.value)
        and not _own_break(s.body[0].body)
    )


def _uses(node):
    load, store = {}, {}
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            k = load if isinstance(n.ctx, ast.Load) else store
            k[n.id] = k.get(n.id, 0) + 1
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for x in n.names:
                load[x] = load.get(x, 0) + 2
        elif isinstance(n, ast.arg):
            store[n.arg] = store.get(n.arg, 0) + 1
    return load, store


def _idle(s, load):
    """A statement that does nothing."""
    if isinstance(s, ast.Expr):
        return isinstance(s.value, ast.Constant)
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
        return isinstance(s.value, ast.Constant) and not load.get(s.targets[0].id)
    return False


def _held(s, t, load, store):
    """s is `x = E` and t the `if x:` (or `if not x:`) that is its only use."""
    if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
        return False
    if not isinstance(t, ast.If):
        return False
    x = s.targets[0].id
    if load.get(x) != 1 or store.get(x) != 1 or not isinstance(s.value, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Name)):
        return False
    c = t.test
    while isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
        c = c.operand
    return isinstance(c, ast.Name) and c.id == x


def _leaves(n):
    """while True: if C: break; ... without any other way of saying it."""
    return (
        isinstance(n, ast.While)
        and isinstance(n.test, ast.Constant)
        and n.test.value
        and not n.orelse
        and len(n.body) > 1
        and isinstance(n.body[0], ast.If)
        and not n.body[0].orelse
        and len(n.body[0].body) == 1
        and isinstance(n.body[0].body[0], ast.Break)
    )


def _drawn(n):
    """for x in (E for y in X if C): ..."""
    return (
        isinstance(n, ast.For)
        and isinstance(n.iter, ast.GeneratorExp)
        and len(n.iter.generators) == 1
        and bool(n.iter.generators[0].ifs)
        and isinstance(n.iter.generators[0].target, ast.Name)
        and isinstance(n.iter.elt, ast.Name)
        and n.iter.elt.id == n.iter.generators[0].target.id
        and isinstance(n.target, ast.Name)
        and (n.target.id == n.iter.elt.id or not any(
            isinstance(x, ast.Name) and x.id == n.target.id for c in n.iter.generators[0].ifs for x in ast.walk(c)))
    )


def _draw(n):
    """The same as for x in X: if C: ..., which is walked just as lazily."""
    g = n.iter.generators[0]
    old, new = g.target.id, n.target.id

    class Put(ast.NodeTransformer):
        def visit_Name(self, x):
            return ast.copy_location(ast.Name(new, x.ctx), x) if x.id == old else x

    test = g.ifs[0] if len(g.ifs) == 1 else ast.copy_location(ast.BoolOp(ast.And(), g.ifs), g.ifs[0])
    n.body = [ast.copy_location(ast.If(Put().visit(test), n.body, []), n.body[0])]
    n.iter = g.iter


def tidy(node):
    """Idle statements, conditions held in a name, and loops that begin with their exit."""
    load, store = _uses(node)

    def blocks(n):
        for b in _suites(n):
            yield b
        for h in getattr(n, "handlers", []):
            yield h.body

    def dirty(n):
        for x in ast.walk(n):
            if isinstance(x, (ast.FunctionDef, ast.For, ast.While, ast.If, ast.Try, ast.With, ast.ExceptHandler)):
                if _leaves(x) or _drawn(x):
                    return True
                for b in blocks(x):
                    for i, s in enumerate(b):
                        if (len(b) > 1 and _idle(s, load)) or (i and _held(b[i - 1], s, load, store)):
                            return True
        return False

    if not dirty(node):
        return node
    node = copy.deepcopy(node)
    for x in list(ast.walk(node)):
        if not isinstance(x, (ast.FunctionDef, ast.For, ast.While, ast.If, ast.Try, ast.With, ast.ExceptHandler)):
            continue
        for b in blocks(x):
            keep = [s for s in b if not _idle(s, load)]
            b[:] = keep or b[:1]
            i = 1
            while i < len(b):
                if _held(b[i - 1], b[i], load, store):
                    t, v = b[i], b[i - 1].value
                    if isinstance(t.test, ast.Name):
                        t.test = v
                    else:
                        c = t.test
                        while not isinstance(c.operand, ast.Name):
                            c = c.operand
                        c.operand = v
                    del b[i - 1]
                    i = max(1, i - 1)
                else:
                    i += 1
    for x in ast.walk(node):
        if _drawn(x):
            _draw(x)
        if _leaves(x):
            c = x.body[0].test
            x.test = c.operand if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not) else ast.copy_location(
                ast.UnaryOp(ast.Not(), c), c
            )
            x.body = x.body[1:]
    return ast.fix_missing_locations(node)


def flatten(node):
    """while True: (while C: B); D   is   while True: if C: B; continue; else D."""
    if not any(_nest(n) for n in ast.walk(node)):
        return node
    node = copy.deepcopy(node)
    for n in ast.walk(node):
        while _nest(n):
            inner = n.body[0]
            test = ast.If(inner.test, inner.body + [ast.Continue()], [])
            ast.copy_location(test, inner)
            n.body = [test] + n.body[1:]
    return ast.fix_missing_locations(node)


def _localise(node):
    if not any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(node)):
        return node
    todo = []

    def visit(n, loops, in_try):
        for b in _suites(n):
            for i, s in enumerate(b):
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    continue
                if (
                    loops
                    and not in_try
                    and isinstance(s, ast.Assign)
                    and len(s.targets) == 1
                    and isinstance(s.targets[0], ast.Name)
                ):
                    todo.append((b, i, s, list(loops)))
                sub = loops + [s] if isinstance(s, (ast.For, ast.While)) else loops
                visit(s, sub, in_try or isinstance(s, ast.Try))
        for h in getattr(n, "handlers", []):
            visit(h, loops, True)

    tree = node
    visit(tree, [], False)
    if not todo:
        return node
    closures = set()
    for n in ast.walk(node):
        if n is not node and isinstance(n, (ast.FunctionDef, ast.Lambda)):
            closures |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            closures |= set(n.names)
    params = {a.arg for a in node.args.args + node.args.kwonlyargs}
    order = {id(n): j for j, n in enumerate(_preorder(node))}
    picks = []
    for b, i, s, loops in todo:
        name = s.targets[0].id
        if name in closures:
            continue
        stores = [
            n for n in ast.walk(node)
            if isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Load)
        ]
        if len(stores) < 2 and name not in params:
            continue
        rest = {id(n) for t in b[i + 1:] for n in ast.walk(t)}
        inside = rest | {id(n) for n in ast.walk(s)}
        last = max(order[x] for x in inside if x in order)
        later = [
            n for n in ast.walk(node)
            if isinstance(n, ast.Name) and n.id == name and order.get(id(n), 0) > last
        ]
        if later or any(_carried(l, s) for l in loops):
            continue
        picks.append((b, i, s, name))
    if not picks:
        return node
    memo = {}
    out = copy.deepcopy(node, memo)
    for j, (b, i, s, name) in enumerate(picks):
        fresh = f"{name}'{j}"
        ns = memo[id(s)]
        ns.targets[0].id = fresh
        for t in b[i + 1:]:
            for n in ast.walk(memo[id(t)]):
                if isinstance(n, ast.Name) and n.id == name:
                    n.id = fresh
    return out


def _preorder(n):
    yield n
    for c in ast.iter_child_nodes(n):
        # contexts and operators are shared objects
        if not isinstance(c, (ast.expr_context, ast.operator, ast.cmpop, ast.boolop, ast.unaryop)):
            yield from _preorder(c)


_RISKY = (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp, ast.Raise, ast.Assert, ast.Starred)


def _risky(n):
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        f = n.value.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "logger":
            return False
    return any(isinstance(x, _RISKY) for x in ast.walk(n))


def split_try(s, tag):
    """(body, orelse) of a try statement: what cannot raise any more, and what
    is done with the value of the last expression that can, moves to orelse."""
    body, orelse = list(s.body), list(s.orelse)
    idx = [i for i, st in enumerate(body) if _risky(st)]
    if not idx:
        return body, orelse
    i = idx[-1]
    st, rest = body[i], body[i + 1:]
    tmp = f"try'{tag}"

    def hold(value):
        a = ast.Assign(targets=[ast.Name(tmp, ast.Store())], value=value)
        return ast.fix_missing_locations(ast.copy_location(a, st))

    def name():
        return ast.copy_location(ast.Name(tmp, ast.Load()), st)

    if isinstance(st, ast.Return) and st.value is not None and _risky(st.value):
        return body[:i] + [hold(st.value)], [ast.copy_location(ast.Return(name()), st)] + rest + orelse
    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Yield) and st.value.value is not None:
        y = ast.Expr(ast.copy_location(ast.Yield(name()), st))
        return body[:i] + [hold(st.value.value)], [ast.copy_location(y, st)] + rest + orelse
    if (
        isinstance(st, ast.Assign)
        and len(st.targets) == 1
        and isinstance(st.targets[0], (ast.Attribute, ast.Subscript))
        and _risky(st.value)
    ):
        a = ast.Assign(targets=st.targets, value=name())
        return body[:i] + [hold(st.value)], [ast.copy_location(a, st)] + rest + orelse
    return body[: i + 1], rest + orelse
