"""Standard ways of saying the same, brought to one form before evaluation."""

import ast
import copy

_CMP = (ast.Lt, ast.LtE, ast.Gt, ast.GtE)
_SET_OPS = {ast.BitOr: "update", ast.BitAnd: "intersection_update", ast.Sub: "difference_update"}


def _simple(e):
    if isinstance(e, (ast.Name, ast.Constant)):
        return True
    if isinstance(e, ast.Attribute):
        return _simple(e.value)
    if isinstance(e, ast.Subscript):
        return _simple(e.value) and _simple(e.slice)
    if isinstance(e, ast.Tuple):
        return all(_simple(x) for x in e.elts)
    return False


def _load(e):
    e = copy.deepcopy(e)
    for x in ast.walk(e):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return e


def _same(a, b):
    return ast.dump(_load(a)) == ast.dump(_load(b))


def _is_set(e):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset")


def _own(stmts, kinds):
    """Does a break/continue of this very loop occur?"""
    for s in stmts:
        if isinstance(s, kinds):
            return True
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(s, (ast.For, ast.While)):
            if _own(s.orelse, kinds):
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if _own(getattr(s, f, []), kinds):
                return True
        for h in getattr(s, "handlers", []):
            if _own(h.body, kinds):
                return True
    return False


def _extreme(test, a, b):
    """min/max when `a if test else b` picks one of the two compared."""
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], _CMP)):
        return None
    left, right = test.left, test.comparators[0]
    if not (_simple(a) and _simple(b)):
        return None
    less = isinstance(test.ops[0], (ast.Lt, ast.LtE))
    if _same(left, a) and _same(right, b):
        return "min" if less else "max"
    if _same(left, b) and _same(right, a):
        return "max" if less else "min"
    return None


def _call(name, *args):
    return ast.Call(ast.Name(name, ast.Load()), [_load(a) for a in args], [])


class _Idioms(ast.NodeTransformer):
    def __init__(self, load):
        self.load = load
        self.hits = 0

    def hit(self, old, new):
        self.hits += 1
        ast.copy_location(new, old)
        for x in ast.walk(new):
            if isinstance(x, (ast.stmt, ast.expr)) and not hasattr(x, "lineno"):
                ast.copy_location(x, old)
        return new

    # ---- expressions
    def visit_IfExp(self, n):
        self.generic_visit(n)
        m = _extreme(n.test, n.body, n.orelse)
        return self.hit(n, _call(m, n.body, n.orelse)) if m else n

    def visit_comp(self, n):
        self.generic_visit(n)
        out = []
        for g in n.generators:
            parts = self.product(g.target, g.iter)
            if parts is None:
                out.append(g)
                continue
            self.hits += 1
            for i, (t, it) in enumerate(parts):
                out.append(ast.comprehension(t, it, g.ifs if i == len(parts) - 1 else [], 0))
        n.generators = out
        return n

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_comp

    def product(self, target, it):
        if not (isinstance(it, ast.Call) and not it.keywords and len(it.args) > 1):
            return None
        f = it.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if name != "product" or not all(_simple(a) for a in it.args):
            return None
        if not (isinstance(target, ast.Tuple) and len(target.elts) == len(it.args)):
            return None
        return list(zip(target.elts, it.args))

    def visit_Call(self, n):
        self.generic_visit(n)
        if (
            isinstance(n.func, ast.Name) and n.func.id == "reversed" and len(n.args) == 1 and not n.keywords
            and isinstance(n.args[0], ast.Call) and isinstance(n.args[0].func, ast.Name)
            and n.args[0].func.id == "range" and not n.args[0].keywords and len(n.args[0].args) in (1, 2)
        ):
            a = n.args[0].args
            lo = a[0] if len(a) == 2 else ast.Constant(0)
            minus = [
                ast.BinOp(a[-1], ast.Sub(), ast.Constant(1)), ast.BinOp(lo, ast.Sub(), ast.Constant(1)),
                ast.UnaryOp(ast.USub(), ast.Constant(1)),
            ]
            if len(a) == 1:
                minus[1] = ast.UnaryOp(ast.USub(), ast.Constant(1))
            return self.hit(n, ast.Call(ast.Name("range", ast.Load()), minus, []))
        return n

    # ---- statements
    def visit_Expr(self, n):
        self.generic_visit(n)
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and not c.keywords and _simple(c.func.value):
            x, a = c.func.value, c.args
            if c.func.attr == "discard" and len(a) == 1 and _simple(a[0]):
                body = ast.Expr(ast.Call(ast.Attribute(_load(x), "remove", ast.Load()), [a[0]], []))
                return self.hit(n, ast.If(ast.Compare(_load(a[0]), [ast.In()], [_load(x)]), [body], []))
            if (
                c.func.attr == "pop" and len(a) == 2 and _simple(a[0])
                and isinstance(a[1], ast.Constant) and a[1].value is None
            ):
                body = ast.Delete([ast.Subscript(_load(x), a[0], ast.Del())])
                return self.hit(n, ast.If(ast.Compare(_load(a[0]), [ast.In()], [_load(x)]), [body], []))
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        m = _SET_OPS.get(type(n.op))
        if m and _is_set(n.value) and _simple(n.target):
            v = n.value
            if isinstance(v, ast.Call) and len(v.args) == 1 and m == "update":
                v = v.args[0]
            call = ast.Call(ast.Attribute(_load(n.target), m, ast.Load()), [v], [])
            return self.hit(n, ast.Expr(call))
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse or len(n.body) != 1:
            return n
        s = n.body[0]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            m = _extreme(n.test, s.value, s.targets[0])
            if m:
                return self.hit(n, ast.Assign([s.targets[0]], _call(m, s.targets[0], s.value)))
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or _own(n.body, ast.Break):
            return n
        parts = self.product(n.target, n.iter)
        if parts is None:
            return n
        body = n.body
        for t, it in reversed(parts):
            new = ast.For(t, it, body, [])
            self.hit(n, new)
            body = [new]
        return body[0]

    def suite(self, b):
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            nxt = b[i + 1] if i + 1 < len(b) else None
            new = self.counted(s, nxt)
            if new is not None:
                out.append(new)
                i += 2
                continue
            if self.sorts(s, nxt):
                e = s.value.args[0] if isinstance(s.value, ast.Call) else s.value
                c = nxt.value
                new = ast.Assign(s.targets, ast.Call(ast.Name("sorted", ast.Load()), [e], c.keywords))
                out.append(self.hit(s, new))
                i += 2
                continue
            if self.returns(s):
                c = s.body[0]
                test = c.test
                if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
                    test = test.operand
                else:
                    test = ast.copy_location(ast.UnaryOp(ast.Not(), test), test)
                self.hits += 1
                s.test, s.body = test, s.body[1:]
                out.append(s)
                out.append(c.body[0])
                i = len(b)
                continue
            out.append(s)
            i += 1
        b[:] = out

    def sorts(self, s, t):
        """xs = list(E); xs.sort(...)   is   xs = sorted(E, ...)."""
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
            return False
        v = s.value
        if not (
            isinstance(v, (ast.ListComp, ast.List)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name)
            and v.func.id == "list" and len(v.args) == 1 and not v.keywords
        ):
            return False
        if not (isinstance(t, ast.Expr) and isinstance(t.value, ast.Call) and not t.value.args):
            return False
        f = t.value.func
        return (
            isinstance(f, ast.Attribute) and f.attr == "sort" and isinstance(f.value, ast.Name)
            and f.value.id == s.targets[0].id
        )

    def returns(self, s):
        """while True: if C: return E; ...   with no other way to fall out."""
        return (
            isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and bool(s.test.value) and not s.orelse
            and len(s.body) > 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse
            and len(s.body[0].body) == 1 and isinstance(s.body[0].body[0], ast.Return)
            and not _own(s.body[1:], ast.Break)
        )

    def counted(self, s, w):
        """i = 0; while i < N: ...; i += 1   as a loop over range(N)."""
        if not (
            isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)
            and isinstance(s.value, (ast.Constant, ast.Name)) and isinstance(w, ast.While) and not w.orelse
            and isinstance(w.test, ast.Compare) and len(w.test.ops) == 1 and isinstance(w.test.ops[0], (ast.Lt, ast.LtE))
            and isinstance(w.test.left, ast.Name) and w.test.left.id == s.targets[0].id and len(w.body) > 1
        ):
            return None
        i = s.targets[0].id
        last = w.body[-1]
        if not (
            isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name)
            and last.target.id == i and isinstance(last.value, ast.Constant) and last.value.value == 1
        ):
            return None
        body = w.body[:-1]
        if _own(body, ast.Continue):
            return None
        n = w.test.comparators[0]
        names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" and len(n.args) == 1:
            if not isinstance(n.args[0], ast.Name):
                return None
        elif not isinstance(n, (ast.Name, ast.Constant)):
            return None
        inside = 0
        for b in body + [w.test]:
            for x in ast.walk(b):
                if isinstance(x, ast.Name):
                    if x.id == i:
                        inside += 1
                    if not isinstance(x.ctx, ast.Load) and (x.id == i or x.id in names):
                        return None
                if (
                    isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                    and isinstance(x.func.value, ast.Name) and x.func.value.id in names
                ):
                    return None
        if self.load.get(i, 0) != inside:
            return None
        hi = n
        if isinstance(w.test.ops[0], ast.LtE):
            hi = ast.BinOp(n, ast.Add(), ast.Constant(1))
        args = [hi] if isinstance(s.value, ast.Constant) and s.value.value == 0 else [s.value, hi]
        rng = ast.Call(ast.Name("range", ast.Load()), args, [])
        return self.hit(w, ast.For(ast.Name(i, ast.Store()), rng, body, []))

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                self.suite(b)
        return n


def idioms(node):
    load = {}
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            load[x.id] = load.get(x.id, 0) + 1
    new = copy.deepcopy(node)
    v = _Idioms(load)
    new = v.visit(new)
    if not v.hits:
        return node
    return ast.fix_missing_locations(new)
