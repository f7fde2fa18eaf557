"""A second reading of both programs, used only to recognise more rewrites as equal.

Each step keeps the meaning; what it loses is locality, so a function that the
first reading tells apart is judged by the first reading unless this one finds
the two the same."""

import ast
import copy

from .idioms import _same, _simple
from .model import Program


def _minus_one(lo, hi):
    """The bounds of X[:hi] and X[lo:] leave out exactly the item at hi."""
    if isinstance(lo, ast.BinOp) and isinstance(lo.op, ast.Add):
        for a, b in ((lo.left, lo.right), (lo.right, lo.left)):
            if isinstance(b, ast.Constant) and b.value == 1 and _same(a, hi):
                return True
    return False


def _cut(a, b):
    """X[:i], X[i + 1:]   ->  X, i"""
    if not (isinstance(a, ast.Subscript) and isinstance(b, ast.Subscript)):
        return None
    s, t = a.slice, b.slice
    if not (isinstance(s, ast.Slice) and isinstance(t, ast.Slice)):
        return None
    if s.lower or s.step or t.upper or t.step or s.upper is None or t.lower is None:
        return None
    if not (_simple(a.value) and _same(a.value, b.value) and _simple(s.upper) and _minus_one(t.lower, s.upper)):
        return None
    return a.value, s.upper


class Wide(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.init = False

    def others(self, at, xs, i):
        """[x for j, x in enumerate(xs) if j != i]"""
        self.n += 1
        j, x = f"other{self.n}_", f"item{self.n}_"
        gen = ast.comprehension(
            ast.Tuple([ast.Name(j, ast.Store()), ast.Name(x, ast.Store())], ast.Store()),
            ast.Call(ast.Name("enumerate", ast.Load()), [xs], []),
            [ast.Compare(ast.Name(j, ast.Load()), [ast.NotEq()], [i])], 0,
        )
        return ast.fix_missing_locations(ast.copy_location(ast.ListComp(ast.Name(x, ast.Load()), [gen]), at))

    def visit_BinOp(self, n):
        self.generic_visit(n)
        r = self.repeated(n)
        if r is not n:
            return r
        if isinstance(n.op, ast.Add):
            c = _cut(n.left, n.right)
            if c:
                return self.others(n, *c)
            if isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Add):
                c = _cut(n.left.right, n.right)
                if c:
                    n.left, n.right = n.left.left, self.others(n, *c)
        if (
            isinstance(n.op, ast.Sub) and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name)
            and n.left.func.id == "sum" and len(n.left.args) == 1 and isinstance(n.right, ast.Subscript)
            and not isinstance(n.right.slice, ast.Slice) and _simple(n.right) and _same(n.right.value, n.left.args[0])
        ):
            n.left.args = [self.others(n, n.left.args[0], n.right.slice)]
            return n.left
        return n

    def items(self, n):
        self.generic_visit(n)
        out = []
        for e in n.elts:
            if out and isinstance(e, ast.Starred) and isinstance(out[-1], ast.Starred):
                c = _cut(out[-1].value, e.value)
                if c:
                    out[-1] = ast.copy_location(ast.Starred(self.others(n, *c), ast.Load()), e)
                    continue
            out.append(e)
        n.elts = out
        return n

    visit_Tuple = visit_List = items

    # ---- statements
    def visit_Try(self, n):
        """x = D[k], and what to do for a missing key, as a test for the key."""
        self.generic_visit(n)
        s = n.body[0]
        if (
            len(n.body) == 1 and isinstance(s, ast.Assign) and isinstance(s.value, ast.Subscript)
            and _simple(s.value) and not n.finalbody and len(n.handlers) == 1 and n.handlers[0].name is None
            and isinstance(n.handlers[0].type, ast.Name) and n.handlers[0].type.id == "KeyError"
        ):
            test = ast.Compare(s.value.slice, [ast.NotIn()], [s.value.value])
            new = ast.If(test, n.handlers[0].body, [s] + n.orelse)
            return ast.fix_missing_locations(ast.copy_location(new, n))
        return n

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.merged(b))
        return n

    def merged(self, body):
        """self.A = E; self.A = self.A + F   in one go."""
        out = []
        for s in body:
            p = out[-1] if out else None
            a, b = self.field_value(p), self.field_value(s)
            if a and b and a[0] == b[0] and isinstance(b[1], ast.BinOp) and _simple(b[1].left) and not any(
                isinstance(x, ast.Attribute) and x.attr == a[0].split(".")[-1] for x in ast.walk(b[1].right)
            ) and isinstance(b[1].left, ast.Attribute) and ast.unparse(b[1].left) == a[0]:
                new = ast.BinOp(p.value, b[1].op, b[1].right)
                p.value = self.repeated(ast.fix_missing_locations(ast.copy_location(new, p.value)))
                continue
            out.append(s)
        return out

    def field_value(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute):
            return ast.unparse(s.targets[0]), s.value
        if isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Attribute):
            return ast.unparse(s.target), s.value
        return None

    def repeated(self, n):
        """[c for _ in xs] + [c]   ->   [c for _ in range(len(xs) + 1)]"""
        if not (isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add)):
            return n
        c, one = n.left, n.right
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("tuple", "list") and c.args:
            c = c.args[0]
        if not (
            isinstance(c, (ast.ListComp, ast.GeneratorExp)) and isinstance(one, (ast.Tuple, ast.List))
            and len(one.elts) == 1 and _same(c.elt, one.elts[0]) and len(c.generators) == 1
            and not c.generators[0].ifs and isinstance(c.generators[0].target, ast.Name)
            and not any(isinstance(x, ast.Name) and x.id == c.generators[0].target.id for x in ast.walk(c.elt))
        ):
            return n
        g = c.generators[0]
        it = g.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 1:
            size = it.args[0]
        else:
            size = ast.Call(ast.Name("len", ast.Load()), [it], [])
        g.iter = ast.Call(ast.Name("range", ast.Load()), [ast.BinOp(size, ast.Add(), ast.Constant(1))], [])
        return ast.fix_missing_locations(ast.copy_location(n.left, n))

    def loop(self, n):
        """A handler that leaves the loop for good, put around the loop."""
        self.generic_visit(n)
        t = n.body[0]
        if (
            not n.orelse and len(n.body) == 1 and isinstance(t, ast.Try) and not t.orelse and not t.finalbody
            and all(isinstance(h.body[-1], (ast.Return, ast.Raise)) for h in t.handlers)
        ):
            n.body = t.body
            t.body = [n]
            return t
        return n

    visit_While = visit_For = loop

    def visit_FunctionDef(self, n):
        save, self.init = self.init, n.name == "__init__"
        self.generic_visit(n)
        self.membership(n)
        if self.init:
            n.body = self.fields(n.body)
        self.init = save
        return n

    def membership(self, fn):
        """names = set(E), only asked for what is in it."""
        for st in ast.walk(fn):
            for f in ("body", "orelse"):
                b = getattr(st, f, None)
                if not isinstance(b, list):
                    continue
                for s in b:
                    if not (
                        isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)
                        and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name)
                        and s.value.func.id in ("set", "frozenset") and len(s.value.args) == 1
                    ):
                        continue
                    e = s.value.args[0]
                    if not (
                        isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute)
                        and e.func.attr in ("values", "keys") and not e.args and _simple(e.func.value)
                    ):
                        continue
                    name = s.targets[0].id
                    uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == name]
                    asked = [
                        x.comparators[0] for x in ast.walk(fn)
                        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.In, ast.NotIn))
                    ]
                    if len(uses) == 1 + sum(1 for a in asked if isinstance(a, ast.Name) and a.id == name):
                        s.value = e

    def fields(self, body):
        """self.A = {} filled by the loop that follows: a local until it is full."""
        out = []
        i = 0
        while i < len(body):
            s = body[i]
            nxt = body[i + 1] if i + 1 < len(body) else None
            name = self.fresh_field(s)
            if name and isinstance(nxt, ast.For) and not nxt.orelse and self.only_filled(nxt, name):
                self.n += 1
                tmp = f"field{self.n}_"
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                new = ast.Assign([ast.Name(tmp, ast.Store())], s.value)
                for x in ast.walk(nxt):
                    for f, v in ast.iter_fields(x):
                        if isinstance(v, ast.Attribute) and v.attr == name:
                            setattr(x, f, ast.copy_location(ast.Name(tmp, ast.Load()), v))
                last = ast.Assign([t], ast.Name(tmp, ast.Load()))
                out += [ast.copy_location(new, s), nxt, ast.copy_location(last, s)]
                i += 2
                continue
            out.append(s)
            i += 1
        for s in out:
            ast.fix_missing_locations(s)
        return out

    def fresh_field(self, s):
        t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else (
            s.target if isinstance(s, ast.AnnAssign) and s.value is not None else None
        )
        if not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self"):
            return None
        v = s.value
        empty = isinstance(v, ast.Dict) and not v.keys or isinstance(v, ast.List) and not v.elts
        empty = empty or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in (
            "set", "dict", "list", "Counter",
        ) and not v.args and not v.keywords
        return t.attr if empty else None

    def only_filled(self, loop, name):
        """In the loop the field is only the target of item stores and additions."""
        filled = 0
        for x in ast.walk(loop):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                if isinstance(x.value, ast.Attribute) and x.value.attr == name:
                    filled += 1
            elif isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
                f = x.value.func
                if (
                    isinstance(f, ast.Attribute) and f.attr in ("append", "add")
                    and isinstance(f.value, ast.Attribute) and f.value.attr == name
                ):
                    filled += 1
            elif isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom)):
                return False
        uses = [x for x in ast.walk(loop) if isinstance(x, ast.Attribute) and x.attr == name]
        return bool(filled) and filled == len(uses)


def widen(prog):
    """The program read the second way, or None when nothing is rewritten."""
    trees = {}
    for rel, tree in prog.modules.items():
        trees[rel] = ast.fix_missing_locations(Wide().visit(copy.deepcopy(tree)))
    return Program(None, trees)
