"""Flow sensitive evaluation of a function to gated facts.

Every function is summarised by facts (kind, payload, loop context, guard): what
it stores, mutates, calls for effect, returns, raises and yields, each with the
exact path condition over canonical atoms.  Local names, temporaries, the
spelling of conditions, early exits, comprehensions versus loops and private
helpers that were not there before are abstracted away.
"""

import ast
import copy

from . import effects
from . import terms as T
from .flow_names import MUTATORS
from .prepass import localise, read_first, split_try
from .terms import FALSE, TRUE, const, land, lnot, lor

LOGGERS = {"logger", "logging", "warnings", "print"}
NEUTRAL_WRAP = {"list", "tuple", "iter", "builtins.list"}
BUILTINS = {
    "len", "list", "tuple", "set", "dict", "frozenset", "sorted", "reversed", "sum",
    "min", "max", "any", "all", "zip", "map", "filter", "enumerate", "range", "next",
    "iter", "isinstance", "issubclass", "hash", "str", "int", "bool", "repr", "abs",
    "type", "super", "getattr", "hasattr", "setattr", "callable", "id", "vars",
    "bytes", "float", "divmod", "pow", "round", "object", "format", "chr", "ord",
    "open", "property", "ValueError", "KeyError", "TypeError", "RuntimeError",
    "NotImplementedError", "StopIteration", "IndexError", "AssertionError",
    "NotImplemented", "Exception", "DeprecationWarning", "AttributeError",
    "KeyboardInterrupt", "staticmethod", "classmethod", "Ellipsis", "complex", "slice",
}


def resolve_aliases(body):
    """body with names bound in it to an attribute or a plain name read through."""
    alias = {}

    class Sub(ast.NodeTransformer):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Load) and n.id in alias:
                return copy.deepcopy(alias[n.id])
            return n

    out = []
    for st in body:
        st = Sub().visit(copy.deepcopy(st))
        if (
            isinstance(st, ast.Assign)
            and len(st.targets) == 1
            and isinstance(st.targets[0], ast.Name)
            and isinstance(st.value, (ast.Attribute, ast.Name))
        ):
            alias[st.targets[0].id] = st.value
        out.append(st)
    return out


EXC_ORDER = ()  # how the try statements of a function are numbered, for one analysis


class Fact:
    __slots__ = ("kind", "payload", "ctx", "guard", "seq", "line", "scope")

    def __init__(self, kind, payload, ctx, guard, seq, line, scope=()):
        self.kind = kind
        self.payload = payload
        self.ctx = ctx
        self.guard = guard
        self.seq = seq
        self.line = line
        self.scope = scope

    def ident(self):
        return (self.kind, self.payload, self.ctx, self.scope)

    def __repr__(self):
        return f"{self.kind} {show(self.payload)} ctx={show(self.ctx)} if {showb(self.guard)}"


class Obj:
    def __init__(self, oid, kind, depth, alive, name=None, init=None):
        self.id = oid
        self.kind = kind
        self.depth = depth
        self.alive = alive
        self.contribs = []  # (op, args, [frame uids/doms], guard)
        self.name = name
        self.opaque = None
        self.init = init
        self.order = None


DRAWS = frozenset(
    [f"time.{n}" for n in ("time", "perf_counter", "monotonic", "process_time")]
    + [f"random.{n}" for n in ("random", "randint", "choice", "uniform", "randrange", "sample", "getrandbits")]
)


COUNTED = frozenset(
    ("append", "extend", "appendleft", "insert", "pop", "popleft", "popitem", "heappush", "heappop", "rotate")
)


def counts(f):
    """An effect that is not the same when it happens twice."""
    if f.kind == "yield":
        return True
    if f.kind != "do" or not f.payload:
        return False
    t = f.payload[0]
    if t[0] != "call":
        return False
    g = t[1]
    return g[0] in ("attr", "g", "smeth") and str(g[-1]).split(".")[-1] in COUNTED


class Frame:
    def __init__(self, uid, kind, dom):
        self.uid = uid
        self.kind = kind
        self.dom = dom
        self.outer_alive = TRUE
        self.exits = []
        self.rexits = []  # the exits through return
        self.xexits = []  # the exits through raise


class LoopRec:
    def __init__(self, nframes):
        self.nframes = nframes
        self.continues = []
        self.breaks = []


class Unsupported(Exception):
    pass


# collections of one object that always have the same length (kept in step: see
# the parallel-structures rule)
EQUAL_LEN = {
    "ClassDB": ("comb_class_list", "empty_list", "label_dict", "class_to_info", "label_to_info"),
    "TableMethod": ("_rules", "_shifts"),
}

PURE_NAMES = {"len", "isinstance", "range", "bool", "int", "str", "repr", "tuple", "list", "set"}


class Eval:
    MAXDEPTH = 6

    def __init__(self, prog, func, inline=frozenset(), boolret=False, constants=True):
        self.prog = prog
        self.func = func
        self.inline = inline
        self.boolret = boolret
        self.module = func.module
        self.cls = func.cls
        self.facts = []
        self.env = {}
        self.alive = TRUE
        self.frames = []
        self.loops = []
        self.objs = {}
        self.fns = {}
        self.frame_id = 0
        self.nframes_made = 0
        self.frame_envs = {}
        self.uid = 0
        self.seq = 0
        self.stack = [func]
        self.rets = None
        self.yieldobj = None
        self.scope = ()
        self.exc_count = {}
        self.protected = []
        self.line = func.node.lineno
        self.locals_self = {}
        self.fnkind = func.kind
        self.exit_stack = []
        self.types = prog.attr_types()
        T.NOT_NONE_VALUES = {n for n, (k, none) in self.types.items() if not none}

    def container(self, t):
        """dict, list, counter... when t is an attribute of known type."""
        t = strip_post(t)
        if t[0] == "attr":
            return self.types.get(t[2], (None, True))[0]
        return None

    # ------------------------------------------------------------ utilities

    def newuid(self):
        self.uid += 1
        return self.uid

    def full_guard(self):
        g = self.alive
        for f in self.frames:
            g = land(g, f.outer_alive)
        return g

    def ctx(self):
        return tuple((f.kind, f.uid) for f in self.frames)

    def emit(self, kind, *payload, guard=None):
        """Emit a fact, one per case of its payload."""
        self.seq += 1
        g = self.full_guard() if guard is None else guard
        if g == FALSE:
            return
        for c0, p0 in self._split(payload, g):
            for c, p in lift_cases(p0, c0):
                self.facts.append(
                    Fact(kind, p, self.ctx(), c, self.seq, self.line, self.scope)
                )

    def _split(self, payload, g):
        combos = [(g, ())]
        for t in payload:
            opts = t[1] if t[0] == "case" and len(t[1]) <= 8 else ((TRUE, t),)
            new = []
            for c, pre in combos:
                for c2, x in opts:
                    cc = land(c, c2)
                    if cc != FALSE:
                        new.append((cc, pre + (x,)))
            if len(new) > 16:
                return [(g, tuple(payload))]
            combos = new
        return combos

    def simp(self, t):
        """Drop the cases of t that cannot hold here."""
        if t[0] == "case":
            g = self.full_guard()
            br = [(c, x) for c, x in t[1] if land(g, c) != FALSE]
            if len(br) != len(t[1]):
                if len(br) == 1:
                    return br[0][1]
                tot = lor(*(c for c, _ in br))
                return mkcase((T.restrict(c, tot), x) for c, x in br)
        elif t[0] == "bool":
            g = self.full_guard()
            if land(g, t[1]) == FALSE:
                return T.CFALSE
            if land(g, lnot(t[1])) == FALSE:
                return T.CTRUE
        return t

    # ---------------------------------------------------------- collections

    def newobj(self, kind, init=None):
        oid = self.newuid()
        self.objs[oid] = Obj(oid, kind, len(self.frames), self.alive, init=init)
        return ("obj", oid)

    def contribute(self, oid, op, *args):
        o = self.objs[oid]
        frames = self.frames[o.depth:]
        guard = self.alive
        for f in frames:
            guard = land(guard, f.outer_alive)
        if o.depth < len(self.frames):
            pass
        guard = T.restrict(guard, o.alive) if guard != TRUE else guard
        o.contribs.append([op, args, [(f.kind, f.uid, f.dom) for f in frames], guard])

    def val(self, t):
        """Materialise local collections in t."""
        if t[0] == "obj":
            return self.materialise(t[1])
        if t[0] == "fn":
            return self.fn_value(t[1])
        if t[0] == "case":
            return mkcase((c, self.val(x)) for c, x in t[1])
        if t[0] == "tuple" and any(
            isinstance(x, tuple) and x and x[0] in ("obj", "case", "fn", "star", "tuple")
            for x in t[1:]
        ):
            return ("tuple",) + tuple(self.val(x) for x in t[1:])
        if t[0] == "star":
            return ("star", self.val(t[1]))
        return t

    def materialise(self, oid):
        o = self.objs[oid]
        if o.opaque is not None:
            return o.opaque
        if getattr(o, "_busy", False):
            return ("selfref",)
        o._busy = True
        try:
            contribs = []
            for op, args, frames, guard in self.alternatives(o):
                for op2, args2, frs2, g2 in self.expand(o.kind, op, args, frames, guard):
                    c = self.close(op2, args2, g2, frs2)
                    contribs.extend(self.splice(o.kind, *c))
        finally:
            o._busy = False
        return finish_coll(o.kind, o.init, contribs)

    def alternatives(self, o):
        """The contributions to o; in a row and on different conditions they are one."""
        out = []
        for op, args, frames, guard in o.contribs:
            args = tuple(self.val(a) for a in args)
            if out and frames and op in ("append", "setitem") and o.kind in ("seq", "dict"):
                op1, args1, frames1, guard1 = out[-1]
                if (
                    op1 == op and frames1 == frames and args1[:-1] == args[:-1]
                    and land(guard1, guard) == FALSE
                ):
                    tot = lor(guard1, guard)
                    x = mkcase(
                        [(T.restrict(guard1, tot), args1[-1]), (lnot(T.restrict(guard1, tot)), args[-1])]
                    )
                    out[-1] = (op, args[:-1] + (x,), frames, tot)
                    continue
            if op == "add" and o.kind == "set" and args[0][0] == "case":
                out.extend((op, (x,), frames, land(guard, c)) for c, x in args[0][1])
                continue
            out.append((op, args, frames, guard))
        return out

    def expand(self, kind, op, args, frames, guard, depth=0):
        """A contribution element by element: collections added to a collection
        and loops over one of several collections taken apart."""
        keep = [(op, args, frames, guard)]
        if depth > 4 or guard == FALSE:
            return keep
        for i, (k, u, d) in enumerate(frames):
            if k != "for" or d[0] not in ("case", "tuple"):
                continue
            if d[0] == "tuple" and (len(d) > 6 or any(x[0] == "star" for x in d[1:])):
                continue
            if d[0] == "tuple" and kind == "seq" and len(d) > 2 and len(frames) > 1:
                continue
            out = []
            at, pos = ("at", d, u), ("pos", u)
            alts = d[1] if d[0] == "case" else [(TRUE, x) for x in d[1:]]
            for j, (c, x) in enumerate(alts):
                if d[0] == "case":
                    ds, g2, elem = self.iter_spec(x)
                    if len(ds) != 1 or g2 != TRUE:
                        return keep
                    n = ("pos", ds[0][1])
                    new = [("for", ds[0][1], ds[0][0])]
                else:
                    elem, n, new = x, const(j), []

                def f(t):
                    return elem if t == at else n if t == pos else None

                frs = frames[:i] + new + [(k2, u2, T.rebuild(d2, f)) for k2, u2, d2 in frames[i + 1:]]
                if any(mentions_id(t, u) for t in [T.rebuild(a, f) for a in args]):
                    return keep
                out.extend(
                    self.expand(
                        kind, op, tuple(T.rebuild(a, f) for a in args), frs,
                        land(c, T.rebuild(guard, f)), depth + 1,
                    )
                )
            return out
        base = {"extend": "append"}.get(op)
        if op == "update" and kind == "set":
            base = "add"
        if base is None or len(args) != 1 or (kind == "seq") != (base == "append"):
            return keep
        a = args[0]
        if a[0] == "case" and len(a[1]) <= 4:
            out = []
            for c, x in a[1]:
                out.extend(self.expand(kind, op, (x,), frames, land(guard, c), depth + 1))
            return out
        if a[0] == "concat":
            parts = a[1:]
        elif a[0] == "tuple" and any(x[0] == "star" for x in a[1:]):
            parts = [x[1] if x[0] == "star" else ("tuple", x) for x in a[1:]]
        else:
            parts = [a]
        if len(parts) > 1:
            if kind == "seq" and frames:
                return keep
            out = []
            for x in parts:
                out.extend(self.expand(kind, op, (x,), frames, guard, depth + 1))
            return out
        a = parts[0]
        if a[0] == "tuple":
            if kind == "seq" and len(a) > 2 and frames:
                return keep
            return [(base, (x,), frames, guard) for x in a[1:]]
        if a[0] == "coll" and a[1] in ("seq", "set") and all(c[0] in ("append", "add") for c in a[2]):
            if kind == "seq" and len(a[2]) > 1 and frames:
                return keep
            out = []
            for _, ar, g, doms in a[2]:
                ds, g2, a2 = self.open_contrib(ar, g, doms)
                out.extend(
                    self.expand(
                        kind, base, a2, list(frames) + [("for", u, d) for d, u in ds],
                        land(guard, g2), depth + 1,
                    )
                )
            return out
        if not frames:
            return keep
        ds, g2, elem = self.iter_spec(a)
        return [(base, (elem,), list(frames) + [("for", u, d) for d, u in ds], land(guard, g2))]

    def close(self, op, args, guard, frames):
        """Rename the loops of a contribution to canonical heights."""
        doms = [f[2] for f in frames]
        uids = [f[1] for f in frames]
        return (op,) + close_terms(args, guard, doms, uids)

    def splice(self, kind, op, args, guard, doms):
        """Normalise extend/update with a known collection."""
        if op in ("extend", "update", "extendleft") and len(args) == 1:
            base = "append" if op == "extend" else "add" if kind == "set" else None
            a = args[0]
            if op == "extendleft":
                base = "appendleft"
            if kind in ("dict", "counter") and op == "update":
                if a[0] == "coll" and a[1] == "dict" and not doms:
                    return [(o, ar, land(guard, g), d) for o, ar, g, d in a[2]]
                if a[0] == "tuple" and len(a) == 1:
                    return []
                return [(op, args, guard, doms)]
            if base is not None:
                if a[0] == "tuple" and not any(x[0] == "star" for x in a[1:]):
                    return [(base, (x,), guard, doms) for x in a[1:]]
                if a[0] == "coll" and a[1] in ("seq", "set") and not doms:
                    if all(c[0] in ("append", "add") for c in a[2]):
                        return [(base, ar, land(guard, g), d) for _, ar, g, d in a[2]]
                if not doms:
                    u = self.newuid()
                    spec_doms, g2, elem = self.iter_spec(a)
                    args2, g3, doms2 = close_terms(
                        (elem,), land(guard, g2), [d for d, _ in spec_doms],
                        [x for _, x in spec_doms],
                    )
                    return [(base, args2, g3, doms2)]
        return [(op, args, guard, doms)]

    def make_opaque(self, oid, name):
        """Give up on the value of a local collection: it becomes a memory cell."""
        o = self.objs[oid]
        if o.opaque is not None:
            return o.opaque
        loc = ("loc", name)
        o.opaque = loc
        self.seq += 1
        g = o.alive
        init = finish_coll(o.kind, o.init, [])
        save = self.alive
        # the initial value
        frames = self.frames[: o.depth]
        for f in frames:
            g = land(g, f.outer_alive)
        ctx = tuple((f.kind, f.uid) for f in frames)
        plain = []
        rest = []
        open_uids = {f.uid for f in self.frames}
        for op, args, frs, guard in o.contribs:
            args = tuple(self.val(a) for a in args)
            if not rest and not frs and guard == TRUE:
                plain.extend(self.splice(o.kind, op, args, guard, ()))
            elif not rest and frs and all(k == "for" and u not in open_uids for k, u, _ in frs):
                plain.extend(self.splice(o.kind, *self.close(op, args, guard, frs)))
            else:
                rest.append((op, args, frs, guard))
        init = finish_coll(o.kind, o.init, plain)
        self.facts.append(Fact("assign", (loc, init), ctx, g, self.seq, self.line, self.scope))
        for op, args, frs, guard in rest:
            self.seq += 1
            c2 = ctx + tuple((k, u) for k, u, _ in frs)
            call = T.mkcall(("attr", loc, op), args)
            self.facts.append(
                Fact("do", (call,), c2, land(g, guard), self.seq, self.line, self.scope)
            )
            for k, u, d in frs:
                self.doms_seen[u] = (k, d)
        self.alive = save
        return loc

    # ------------------------------------------------------------ iteration

    def iter_spec(self, t):
        """How to iterate over t: ([(domain, uid)], guard, element)."""
        t = unlift(self.val(t))
        if t[0] == "call" and t[1][0] == "g" and not t[3]:
            n, a = t[1][1], t[2]
            if n in NEUTRAL_WRAP and len(a) == 1:
                return self.iter_spec(a[0])
            if n == "enumerate" and len(a) in (1, 2):
                doms, g, elem = self.iter_spec(a[0])
                if len(doms) == 1 and g == TRUE:
                    pos = ("pos", doms[0][1])
                    if len(a) == 2:
                        pos = T.mkadd(pos, a[1])
                    return doms, g, ("tuple", pos, elem)
            if n == "zip" and a and not any(x[0] == "star" for x in a):
                u = self.newuid()
                tails = [x[1] for x in a if x[0] == "sub" and x[2] == TAIL]
                # the last item has no successor: zip stops there anyway
                a = [x[1] if x[0] == "sub" and x[2] == INIT and x[1] in tails else x for x in a]
                elems = []
                ds = []
                for x in a:
                    d2, g2, e2 = self.iter_spec(x)
                    if len(d2) != 1 or g2 != TRUE:
                        e2 = ("at", x, u)
                        d2 = [(x, u)]
                    else:
                        e2 = rename(e2, {d2[0][1]: u})
                    elems.append(e2)
                    ds.append(d2[0][0])
                ds = sorted(set(ds), key=T.key)
                dom = ds[0] if len(ds) == 1 else ("zip",) + tuple(ds)
                return [(dom, u)], TRUE, ("tuple",) + tuple(elems)
            if n == "range" and 1 <= len(a) <= 3:
                u = self.newuid()
                lo, hi, step = const(0), a[0], const(1)
                if len(a) >= 2:
                    lo, hi = a[0], a[1]
                if len(a) == 3:
                    step = a[2]
                if step == const(1):
                    n_ = T.mkadd(hi, lo, -1)
                    dom = ("range", n_)
                    if n_[0] == "call" and n_[1] == ("g", "len") and lo == const(0):
                        dom = n_[2][0]
                    return [(dom, u)], TRUE, T.mkadd(("pos", u), lo)
                if step == const(-1):
                    n_ = T.mkadd(lo, hi, -1)
                    dom = ("rev", range_dom(n_))
                    return [(dom, u)], TRUE, T.mkadd(lo, ("pos", u), -1)
                return [(("range3", lo, hi, step), u)], TRUE, ("at", ("range3", lo, hi, step), u)
            if n == "reversed" and len(a) == 1:
                x = a[0]
                if x[0] == "call" and x[1] == ("g", "range") and not x[3]:
                    d2, g2, e2 = self.iter_spec(x)
                    if len(d2) == 1 and d2[0][0][0] != "range3":
                        u = d2[0][1]
                        lo = const(0) if len(x[2]) == 1 else x[2][0]
                        hi = x[2][0] if len(x[2]) == 1 else x[2][1]
                        n_ = T.mkadd(hi, lo, -1)
                        return (
                            [(("rev", range_dom(n_)), u)],
                            TRUE,
                            T.mkadd(T.mkadd(hi, const(-1)), ("pos", u), -1),
                        )
            if n == "itertools.product" and len(a) >= 2 and not any(x[0] == "star" for x in a):
                specs = [self.iter_spec(x) for x in a]
                return (
                    [d for ds, _, _ in specs for d in ds],
                    land(*(g for _, g, _ in specs)),
                    ("tuple",) + tuple(e for _, _, e in specs),
                )
            if n in ("itertools.chain.from_iterable", "chain.from_iterable") and len(a) == 1:
                d1, g1, e1 = self.iter_spec(a[0])
                d2, g2, e2 = self.iter_spec(e1)
                return d1 + d2, land(g1, g2), e2
        if t[0] == "call" and t[1][0] == "attr" and not t[2] and not t[3]:
            base, m = t[1][1], t[1][2]
            if m == "keys":
                return self.iter_spec(base)
            if m == "items":
                u = self.newuid()
                k = ("at", base, u)
                if base[0] == "coll" and base[1] == "dict" and len(base[2]) == 1:
                    op, args, guard, doms = base[2][0]
                    if op == "setitem":
                        ds, g, args2 = self.open_contrib(args, guard, doms)
                        return ds, g, ("tuple", args2[0], args2[1])
                return [(base, u)], TRUE, ("tuple", k, T.mksub(base, k))
            if m == "values":
                u = self.newuid()
                return [(base, u)], TRUE, T.mksub(base, ("at", base, u))
        if t[0] == "coll" and t[1] == "seq" and len(t[2]) == 1:
            op, args, guard, doms = t[2][0]
            if op == "append" and doms:
                ds, g, args2 = self.open_contrib(args, guard, doms)
                return ds, g, args2[0]
        if t[0] == "sub" and t[2] == BACKWARDS:
            return self.iter_spec(T.mkcall(("g", "reversed"), (t[1],)))
        if t == ("self",) and self.cls is not None:
            own = self.own_iteration()
            if own is not None:
                return self.iter_spec(own)
        t = strip_view(t)
        u = self.newuid()
        return [(t, u)], TRUE, ("at", t, u)

    def own_iteration(self):
        """What `for x in self` goes through, when __iter__ says it in one step."""
        fn = self.prog.lookup(self.cls.name, "__iter__")
        if fn is None or fn in self.stack or self.overridden(fn, "__iter__"):
            return None
        body = strip_docstring(fn.node.body)
        if len(body) != 1 or len(fn.node.args.args) != 1:
            return None
        b = body[0]
        e = None
        if isinstance(b, ast.Expr) and isinstance(b.value, ast.YieldFrom):
            e = b.value.value
        elif isinstance(b, ast.Return) and isinstance(b.value, ast.Call) and ast.unparse(b.value.func) == "iter":
            e = b.value.args[0]
        if e is None or any(isinstance(x, ast.Name) and x.id != fn.node.args.args[0].arg for x in ast.walk(e)):
            return None
        old = self.env
        self.env = {k: v for k, v in old.items() if isinstance(k, tuple)}
        self.env[fn.node.args.args[0].arg] = ("self",)
        try:
            return self.evv(e)
        finally:
            self.env = old

    def open_contrib(self, args, guard, doms):
        """Instantiate a closed contribution with fresh loop ids."""
        names = contrib_names(args, guard, doms)
        m = {}
        ds = []
        for n, d in zip(names, doms):
            u = self.newuid()
            d2 = rename(d, m)
            m[n] = u
            ds.append((d2, u))
        return ds, rename(guard, m), tuple(rename(a, m) for a in args)

    # ------------------------------------------------------------- function

    doms_seen = None

    def run(self):
        self.doms_seen = {}
        f = self.func
        a = f.node.args
        params = f.params()
        for i, p in enumerate(params):
            if i == 0 and f.kind in ("method", "property"):
                self.env[p] = ("self",)
            elif i == 0 and f.kind == "class":
                self.env[p] = ("cls",)
            else:
                self.env[p] = ("p", i - (1 if f.kind in ("method", "class", "property") else 0))
        for p in a.kwonlyargs:
            self.env[p.arg] = ("p", p.arg)
        if a.vararg:
            self.env[a.vararg.arg] = ("p", "*")
        if a.kwarg:
            self.env[a.kwarg.arg] = ("p", "**")
        self.rets = None
        # defaults are part of the behaviour
        nd = len(a.defaults)
        for p, d in zip(params[len(params) - nd:], a.defaults):
            self.emit("default", const(params.index(p)), self.val(self.ev(d)))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.emit("default", const(p.arg), self.val(self.ev(d)))
        for d in f.decorators:
            if not _neutral_deco(d):
                self.emit("decorator", const(d))
        self.block(unalias(localise(f.node)))
        if self.alive != FALSE and not f.is_generator:
            self.line = f.node.body[-1].lineno
            self.emit("return", T.NONE)
        return self.finalise()

    def finalise(self):
        """Canonical loop names, merge equal facts."""
        out = {}
        order = []
        for f in self.facts:
            m = {}
            ctx = []
            for d, (kind, u) in enumerate(f.ctx):
                k, dom = self.doms_seen.get(u, (kind, ("unk",)))
                ctx.append((kind, rename(dom, m)))
                m[u] = f"L{d}"
            payload = tuple(rename(p, m) for p in f.payload)
            guard = rename(f.guard, m)
            n = 1
            while True:
                g = Fact(f.kind, payload, tuple(ctx), guard, f.seq, f.line, f.scope)
                k = g.ident()
                if k not in out:
                    out[k] = g
                    order.append(g)
                    break
                both = land(out[k].guard, guard) if counts(f) else FALSE
                out[k].guard = lor(out[k].guard, guard)
                if both == FALSE:
                    break
                # done once more where both conditions hold
                n += 1
                payload, guard = (payload[0], const(n)), both
        return [f for f in order if f.guard != FALSE]

    # ------------------------------------------------------------ statements

    def block(self, stmts):
        for s in stmts:
            if self.alive == FALSE:
                # still record nested functions
                if isinstance(s, ast.FunctionDef):
                    self.do_FunctionDef(s)
                continue
            self.line = getattr(s, "lineno", self.line)
            m = getattr(self, "do_" + type(s).__name__, None)
            if m is None:
                raise Unsupported(type(s).__name__)
            m(s)

    def do_Pass(self, s):
        pass

    def do_Import(self, s):
        pass

    def do_ImportFrom(self, s):
        for a in s.names:
            mod = s.module or ""
            if mod.startswith("comb_spec_searcher") or s.level:
                self.env[a.asname or a.name] = ("g", a.name)
            else:
                self.env[a.asname or a.name] = ("g", f"{mod}.{a.name}")

    def do_Global(self, s):
        pass

    do_Nonlocal = do_Global

    def do_Expr(self, s):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Yield):
            self.do_yield(v)
            return
        if isinstance(v, ast.YieldFrom):
            self.do_yieldfrom(v)
            return
        if isinstance(v, ast.Call):
            self.call(v, stmt=True)
            return
        self.ev(v)

    def do_yield(self, v):
        t = self.val(self.ev(v.value)) if v.value is not None else T.NONE
        self.emit_yield(t)

    def emit_yield(self, t):
        if self.yieldobj is not None:
            self.contribute(self.yieldobj, "append", t)
        else:
            self.emit("yield", t)

    def do_yieldfrom(self, v):
        if isinstance(v.value, ast.Call):
            f = self.resolve_inline(v.value)
            if f is not None and f[0].is_generator:
                self.inline_call(f[0], f[1], v.value, mode="yieldfrom")
                return
        t = self.val(self.ev(v.value))
        if t[0] == "tuple" and not any(x[0] == "star" for x in t[1:]):
            for x in t[1:]:
                self.emit_yield(x)
            return
        if t[0] == "coll" and t[1] == "seq" and len(t[2]) != 1:
            if all(c[0] == "append" for c in t[2]):
                for op, args, guard, doms in t[2]:
                    ds, g, a2 = self.open_contrib(args, guard, doms)
                    self.push(ds, g)
                    self.emit_yield(a2[0])
                    self.pop(len(ds))
                return
        doms, g, elem = self.iter_spec(t)
        self.push(doms, g)
        self.emit_yield(elem)
        self.pop(len(doms))

    def push(self, doms, guard):
        for d, u in doms:
            f = Frame(u, "for", d)
            f.outer_alive = self.alive
            self.doms_seen[u] = ("for", d)
            self.frames.append(f)
            self.alive = TRUE
        self.alive = guard if doms else land(self.alive, guard)

    def pop(self, n):
        for _ in range(n):
            f = self.frames.pop()
            self.alive = f.outer_alive

    def do_Return(self, s):
        t = self.ev(s.value) if s.value is not None else T.NONE
        if (
            self.rets is None
            and self.scope == ()
            and s.value is not None
            and (isinstance(s.value, ast.GeneratorExp) or iterator_like(self.func))
            and not any(f.kind != "for" for f in self.frames)
        ):
            v = self.val(t)
            if v[0] == "coll" and v[1] == "seq" and v[2] and all(c[0] == "append" for c in v[2]):
                # an iterator handed out: its items are yielded
                for op, args, guard, doms in v[2]:
                    ds, g, a2 = self.open_contrib(args, guard, doms)
                    self.push(ds, g)
                    self.emit_yield(a2[0])
                    self.pop(len(ds))
                t = T.NONE
        if self.rets is not None and t[0] == "obj" and len(self.frames) == self.rets["depth"]:
            # a collection handed back by an inlined helper keeps its identity
            self.record_exit()
            if self.alive != FALSE:
                self.objs[t[1]].name = None
                self.rets["out"].append((self.alive, t))
            self.alive = FALSE
            return
        if (
            self.rets is not None and t[0] == "tuple" and self.has_obj(t)
            and len(self.frames) == self.rets["depth"]
        ):
            self.record_exit()
            if self.alive != FALSE:
                self.rets["out"].append((self.alive, self.keep_objs(t)))
            self.alive = FALSE
            return
        t = self.val(t)
        t = self.simp(t)
        self.do_return_value(t)
        self.alive = FALSE

    def keep_objs(self, t):
        """A tuple whose local collections keep their identity."""
        out = []
        for x in t[1:]:
            if x[0] == "obj":
                self.objs[x[1]].name = None
                out.append(x)
            elif x[0] == "tuple" and self.has_obj(x):
                out.append(self.keep_objs(x))
            else:
                out.append(self.simp(self.val(x)))
        return ("tuple", *out)

    def do_return_value(self, t):
        if self.rets is not None:
            base = self.rets["depth"]
        else:
            base = self.scope_depth()
        frames = self.frames[base:]
        k = 0
        # the innermost run of for loops can be closed
        while k < len(frames) and frames[len(frames) - 1 - k].kind == "for":
            k += 1
        closable = k == len(frames)
        if self.rets is None and self.boolret and t[0] not in ("bool",):
            if not (t[0] == "g" and t[1] == "NotImplemented") and t != T.NONE:
                t = T.mkbool(T.tobdd(t)) if t[0] != "case" else mkcase(
                    (c, x if x == ("g", "NotImplemented") else T.mkbool(T.tobdd(x)))
                    for c, x in t[1]
                )
        self.record_exit()
        if t[0] == "bool":
            t = mkcase([(t[1], T.CTRUE), (lnot(t[1]), T.CFALSE)]) if False else t
        branches = self.bool_split(t)
        for c, leaf in branches:
            g = land(self.alive, c)
            if g == FALSE:
                continue
            if frames and closable:
                doms = [f.dom for f in frames]
                uids = [f.uid for f in frames]
                # outer alives of inner frames are part of the condition
                cond = g
                for f in frames[1:]:
                    cond = land(cond, f.outer_alive)
                (leaf2,), cond2, doms2 = close_terms((leaf,), cond, doms, uids)
                ex = close_exists(cond, doms, uids)
                if leaf2 == leaf:
                    v = leaf
                else:
                    v = ("first", tuple(doms2), cond2, leaf2)
                g2 = land(frames[0].outer_alive, ex)
            else:
                v, g2 = leaf, g
            if self.rets is not None:
                self.rets["out"].append((g2, v))
            else:
                self.seq += 1
                fullg = g2
                keep = self.frames if not (frames and closable) else self.frames[:base]
                for f in keep:
                    fullg = land(fullg, f.outer_alive)
                ctx = tuple((f.kind, f.uid) for f in keep)
                if fullg != FALSE:
                    self.facts.append(
                        Fact("return", (v,), ctx, fullg, self.seq, self.line, self.scope)
                    )

    def scope_depth(self):
        return self._scope_depth

    _scope_depth = 0

    def bool_split(self, t):
        if t[0] == "case":
            out = []
            for c, x in t[1]:
                for c2, y in self.bool_split(x):
                    out.append((land(c, c2), y))
            return out
        if t[0] == "bool":
            return [(t[1], T.CTRUE), (lnot(t[1]), T.CFALSE)]
        return [(TRUE, t)]

    def record_exit(self):
        base = self.rets["depth"] if self.rets is not None else self._scope_depth
        if len(self.frames) > base:
            self.frames[-1].exits.append(self.alive)
            self.frames[-1].rexits.append(self.alive)

    def do_Raise(self, s):
        if s.exc is None:
            t = ("reraise",)
        else:
            e = s.exc
            if isinstance(e, ast.Call):
                t = self.val(self.ev(e.func))
            else:
                t = self.val(self.ev(e))
        self.raise_term(t)

    def raise_term(self, t):
        frames = self.frames[self._scope_depth:]
        if len(self.frames) > self._scope_depth:
            self.frames[-1].exits.append(self.alive)
            self.frames[-1].xexits.append(self.alive)
        if frames and all(f.kind == "for" for f in frames) and not T.walk_has(t, frames):
            cond = self.alive
            for f in frames[1:]:
                cond = land(cond, f.outer_alive)
            ex = close_exists(cond, [f.dom for f in frames], [f.uid for f in frames])
            g = land(frames[0].outer_alive, ex)
            for f in self.frames[: self._scope_depth]:
                g = land(g, f.outer_alive)
            self.seq += 1
            if g != FALSE:
                self.facts.append(
                    Fact(
                        "raise", (t,),
                        tuple((f.kind, f.uid) for f in self.frames[: self._scope_depth]),
                        g, self.seq, self.line, self.scope,
                    )
                )
        else:
            self.emit("raise", t)
        self.alive = FALSE

    def do_Assert(self, s):
        c = T.tobdd(self.now(self.val(self.ev(s.test))))
        if c != TRUE:
            self.emit("assert", T.mkbool(c))

    def do_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                i = self.val(self.index(t.slice))
                if b[0] == "obj" and self.objs[b[1]].opaque is None:
                    self.contribute(b[1], "delitem", i)
                else:
                    self.mutated(self.val(b))
                    self.emit("del", ("sub", self.val(b), i))
            elif isinstance(t, ast.Attribute):
                self.emit("del", ("attr", self.val(self.ev(t.value)), t.attr))

    def do_Assign(self, s):
        if (
            len(s.targets) == 1
            and isinstance(s.targets[0], (ast.Subscript, ast.Attribute))
            and isinstance(s.value, ast.BinOp)
            and isinstance(s.value.op, (ast.Add, ast.Sub, ast.Mult))
            and ast.unparse(s.value.left) == ast.unparse(s.targets[0])
            and isinstance(s.value.right, ast.Constant)
        ):
            self.do_AugAssign(ast.AugAssign(target=s.targets[0], op=s.value.op, value=s.value.right))
            return
        d = slice_store(s)
        if d is not None:
            self.do_For(d)
            return
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def do_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            v = self.strip_copy(v)
            self.env[t.id] = v
            if v[0] == "obj" and self.objs[v[1]].name is None:
                self.objs[v[1]].name = t.id
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.strip_wrap(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vv = v
            if v[0] == "obj":
                vv = self.val(v)
            if vv[0] == "case":
                pass
            n = len(t.elts)
            for i, e in enumerate(t.elts):
                if star and i == star[0]:
                    hi = i - n + 1
                    self.assign(
                        e.value,
                        ("sub", self.val(vv), ("slice", const(i), const(hi) if hi else T.NONE, T.NONE)),
                    )
                    continue
                idx = i if not star or i < star[0] else i - n
                self.assign(e, self.item(vv, idx))
        elif isinstance(t, ast.Attribute):
            b = self.val(self.ev(t.value))
            v = self.val(v)
            v = self.simp(v)
            term = ("attr", b, t.attr)
            self.emit("store", term, v)
            self.env[("m", term)] = v
            self.mutated(term, store=True)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            i = self.val(self.index(t.slice))
            if b[0] == "obj" and self.objs[b[1]].opaque is None:
                self.contribute(b[1], "setitem", i, v)
            elif b[0] == "case" and any(x[0] == "obj" for _, x in b[1]):
                for c, x in b[1]:
                    save = self.alive
                    self.alive = land(self.alive, c)
                    if x[0] == "obj" and self.objs[x[1]].opaque is None:
                        self.contribute(x[1], "setitem", i, v)
                    else:
                        self.emit("store", ("sub", self.val(x), i), self.val(v))
                    self.alive = save
            else:
                self.store_item(b, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported("target " + type(t).__name__)

    def store_item(self, b, i, v):
        b = strip_post(self.val(b))
        v = self.val(v)
        term = ("sub", b, i)
        self.emit("store", term, v)
        self.kill_subs(b)
        self.env[("m", term)] = v
        self.mutated(b)

    def kill_subs(self, base):
        for k in [k for k in self.env if isinstance(k, tuple) and k[0] == "m"]:
            if k[1][0] == "sub" and k[1][1] == base:
                del self.env[k]

    def item(self, v, i):
        if v[0] == "case":
            return mkcase((c, self.item(x, i)) for c, x in v[1])
        if v[0] == "obj":
            v = self.val(v)
        return T.mksub(v, const(i))

    def strip_wrap(self, v):
        while v[0] == "call" and v[1][0] == "g" and v[1][1] in NEUTRAL_WRAP and len(v[2]) == 1:
            v = v[2][0]
        return v

    def strip_copy(self, v):
        """list(xs)/set(xs)/dict(xs) bound to a local is a fresh collection."""
        return v

    def do_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.env.get(t.id, ("free", t.id))
            v = self.ev(s.value)
            if cur[0] == "obj" and self.objs[cur[1]].opaque is None:
                m = {"Add": "extend", "BitOr": "update"}.get(op)
                o = self.objs[cur[1]]
                if m and o.kind in ("seq", "set", "dict", "deque"):
                    if o.kind == "seq" or m == "update":
                        self.contribute(cur[1], m, self.val(v))
                        return
                self.contribute(cur[1], "aug" + op, self.val(v))
                return
            if cur[0] == "loc" and op in ("Add", "BitOr") and T.seqlike(self.val(v)):
                self.emit("do", T.mkcall(("attr", cur, "extend" if op == "Add" else "update"), (self.val(v),)))
                return
            self.env[t.id] = self.binop(op, self.val(cur), self.val(v))
            return
        if isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            i = self.val(self.index(t.slice))
            v = self.val(self.ev(s.value))
            if b[0] == "obj" and self.objs[b[1]].opaque is None:
                if op in ("Add", "Sub"):
                    if op == "Sub":
                        v = T.mkscale(v, -1) if not T.seqlike(v) else ("neg", v)
                    self.contribute(b[1], "incr", i, v)
                else:
                    self.contribute(b[1], "aug" + op, i, v)
                return
            self.store_incr(strip_post(self.val(b)), i, v, op)
            return
        if isinstance(t, ast.Attribute):
            b = self.val(self.ev(t.value))
            v = self.val(self.ev(s.value))
            term = ("attr", b, t.attr)
            old = self.env.get(("m", term), term)
            new = self.binop(op, old, v)
            self.emit("store", term, new)
            self.env[("m", term)] = new
            self.mutated(term, store=True)
            return
        raise Unsupported("augtarget")

    def store_incr(self, b, i, v, op="Add"):
        term = ("sub", b, i)
        old = self.env.get(("m", term), T.mksub(b, i))
        new = self.binop(op, old, v)
        self.emit("store", term, new)
        self.kill_subs(b)
        self.env[("m", term)] = new
        self.mutated(b)

    # -- branching

    def fork(self):
        return dict(self.env), self.alive

    def merge(self, states):
        """states: [(env, alive)] with disjoint alive conditions."""
        live = [(e, a) for e, a in states if a != FALSE]
        self.alive = lor(*(a for _, a in states))
        if not live:
            if states:
                self.env = states[0][0]
            return
        if len(live) == 1:
            self.env = live[0][0]
            return
        keys = set()
        for e, _ in live:
            keys.update(e)
        total = self.alive
        env = {}
        conds = []
        left = TRUE
        for i, (e, a) in enumerate(live):
            c = T.restrict(a, total)
            if i == len(live) - 1:
                c = left
            else:
                c = land(left, c)
                left = land(left, lnot(c))
            conds.append(c)
        for k in keys:
            vals = []
            for e, _ in live:
                v = e.get(k)
                if v is None and isinstance(k, tuple):
                    v = k[1] if k[0] == "m" else None
                vals.append(v)
            have = [v for v in vals if v is not None]
            if isinstance(k, tuple) and k[0] in ("w", "rv"):
                if any(v != have[0] for v in have):
                    if k[0] == "w":
                        env[k] = max(have, key=lambda v: v[2])
                        # an unknown number of changes
                        env[k] = ("c", "int", env[k][2] + 1)
                    else:
                        env[k] = ("rv", max(v[1] for v in have), None)
                else:
                    env[k] = have[0]
            elif all(v == have[0] for v in have):
                if isinstance(k, tuple) and k[0] != "v" and len(have) != len(vals):
                    continue
                env[k] = have[0]
            elif isinstance(k, tuple) and k[0] == "v":
                env[k] = T.CTRUE
            elif isinstance(k, tuple) and k[0] != "m":
                continue
            else:
                try:
                    env[k] = mkcase(
                        (c, v) for c, v in zip(conds, vals) if v is not None
                    )
                except T.TooBig:
                    raise
        self.env = env

    def do_If(self, s):
        c = T.tobdd(self.now(self.val(self.ev(s.test))))
        env, alive = self.fork()
        self.alive = land(alive, c)
        dead1 = self.full_guard() == FALSE
        if dead1:
            self.alive = FALSE
        self.block(s.body)
        e1 = (self.env, self.alive)
        self.env, self.alive = env, land(alive, lnot(c))
        if self.full_guard() == FALSE:
            self.alive = FALSE
        self.block(s.orelse)
        e2 = (self.env, self.alive)
        self.merge([e1, e2])

    def do_With(self, s):
        for it in s.items:
            t = self.val(self.ev(it.context_expr))
            self.emit("with", t)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ("entered", t))
        self.block(s.body)

    def do_Try(self, s):
        if not s.orelse and not s.finalbody and all(passes_on(h) for h in s.handlers):
            self.block(s.body)
            return
        if self.inline:
            s = self.open_calls(s)
            s = self.expand_trivial(s)
        env0, alive0 = self.fork()
        kinds = []
        for h in s.handlers:
            if h.type is None:
                kinds.append(("any",))
            else:
                kinds.append(self.val(self.ev(h.type)))
        kinds_key = tuple(sorted(T.key(k) for k in kinds))
        known = self.try_access(s, kinds[0]) if len(kinds) == 1 else None
        if known is None:
            n = self.exc_count.get(kinds_key, 0)
            self.exc_count[kinds_key] = n + 1
            if n < len(EXC_ORDER):
                n = EXC_ORDER[n]
        if known is None:
            self.protected.append(tuple(kinds))
            body, orelse = split_try(s, len(self.exc_count))
            nfacts = len(self.facts)
            self.block(body)
            self.protected.pop()
            noraise = lnot(lor(*(T.var(("exc", k, n)) for k in kinds)))
            for f in self.facts[nfacts:]:
                # what is done with a result is done when there is one
                if f.kind in ("raise", "return", "yield", "store", "assign"):
                    f.guard = land(f.guard, noraise)
        else:
            orelse = s.orelse
            self.alive = land(self.alive, lnot(known))
            self.block(s.body)
        bodyenv, bodyalive = dict(self.env), self.alive
        states = []
        noexc = TRUE
        for k, h in zip(kinds, s.handlers):
            atom = T.var(("exc", k, n)) if known is None else known
            # in the handler the body may have been partly done
            self.env = dict(env0)
            if known is None:
                self.forget_attrs(
                    *self.effects().of_stmts(s.body, self.cls.name if self.cls else None)
                )
            self.alive = land(alive0, noexc, atom)
            if h.name:
                self.env[h.name] = ("excval", k)
            self.block(h.body)
            states.append((self.env, self.alive))
            noexc = land(noexc, lnot(atom))
        self.env, self.alive = bodyenv, land(bodyalive, noexc)
        self.block(orelse)
        states.insert(0, (self.env, self.alive))
        self.merge(states)
        self.block(s.finalbody)

    def try_access(self, s, kind):
        """try: x[k] except KeyError is a test of k in x: the condition of the handler."""
        want = {("g", "KeyError"): "dict", ("g", "IndexError"): "list"}.get(kind)
        if want is None:
            return None
        hits = []
        bound = set()
        body = resolve_aliases(s.body)
        for i, st in enumerate(body):
            before = set(bound)
            for n in ast.walk(st):
                if isinstance(n, ast.Subscript):
                    if isinstance(n.value, ast.Attribute):
                        name = n.value.attr
                    elif isinstance(n.value, ast.Name) and n.value.id not in bound:
                        v = strip_post(self.env.get(n.value.id, T.NONE))
                        if v[0] != "attr":
                            return None
                        name = v[2]
                    else:
                        return None
                    k = self.types.get(name, (None,))[0]
                    if k not in ("dict", "list", "ddict", "counter"):
                        return None
                    if k == want:
                        if not isinstance(n.ctx, ast.Load):
                            return None
                        hits.append((i, n, before))
                elif isinstance(n, ast.Call):
                    f = n.func
                    if not (isinstance(f, ast.Name) and (f.id in self.prog.classes or f.id in PURE_NAMES)):
                        if not any(n in list(ast.walk(r)) for r in ast.walk(st) if isinstance(r, ast.Raise)):
                            return None
                elif isinstance(n, ast.Attribute):
                    if isinstance(n.ctx, ast.Load):
                        if self.prog.by_method.get(n.attr):
                            return None
                    elif not hits:
                        return None
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    bound.add(n.id)
        if len(hits) != 1:
            return None
        i, n, before = hits[0]
        if any(not isinstance(x, (ast.Assign, ast.AnnAssign, ast.Pass, ast.Expr, ast.Return)) for x in body[: i + 1]):
            return None
        if any(isinstance(x, ast.Name) and x.id in before for x in ast.walk(n)):
            return None
        base = strip_post(self.evv(n.value))
        idx = self.val(self.ev(n.slice))
        if want == "dict":
            return lnot(T.mkin(idx, base))
        return lnot(T.mklt(idx, T.mkcall(("g", "len"), (base,))))

    # -- loops

    def assigned_names(self, stmts):
        """(names rebound, names mutated or read otherwise) in stmts."""
        bound = set()
        aug = set()

        class V(ast.NodeVisitor):
            def visit_FunctionDef(self, n):
                bound.add(n.name)

            def visit_Lambda(self, n):
                pass

            def visit_ListComp(self, n):
                pass

            visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

            def visit_Name(self, n):
                if isinstance(n.ctx, ast.Store):
                    bound.add(n.id)

            def visit_AugAssign(self, n):
                if isinstance(n.target, ast.Name):
                    aug.add(n.target.id)
                else:
                    self.visit(n.target)
                self.visit(n.value)

            def visit_NamedExpr(self, n):
                bound.add(n.target.id)

        v = V()
        for s in stmts:
            v.visit(s)
        return bound, aug

    def mutated_and_read(self, stmts, env=None, depth=0):
        """Local names mutated in stmts and local names read other than to mutate."""
        mut = set()
        read = set()
        ev = self

        def inlined(n):
            """(mutated, read) argument positions of an inlined callee."""
            if depth > 3:
                return None
            try:
                r = ev.resolve_inline(n)
            except Exception:  # the receiver could not be evaluated
                return None
            if r is None:
                return None
            fn = r[0]
            a = fn.node.args
            params = [p.arg for p in a.posonlyargs + a.args]
            if fn.kind in ("method", "class", "property"):
                params = params[1:]
            if a.vararg or a.kwarg or any(isinstance(x, ast.Starred) for x in n.args):
                return None
            m2, r2 = ev.mutated_and_read(fn.node.body, {}, depth + 1)
            pairs = list(zip(params, n.args)) + [(k.arg, k.value) for k in n.keywords]
            return m2, r2, pairs

        class V(ast.NodeVisitor):
            def visit_Call(self, n):
                f = n.func
                if isinstance(f, (ast.Name, ast.Attribute)):
                    inl = inlined(n)
                    if inl is not None:
                        m2, r2, pairs = inl
                        for p, arg in pairs:
                            if isinstance(arg, ast.Name):
                                if p in m2:
                                    mut.add(arg.id)
                                if p in r2:
                                    read.add(arg.id)
                            else:
                                self.visit(arg)
                        return
                if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                    root = f.value
                    if isinstance(root, ast.Name):
                        mut.add(root.id)
                        if f.attr in ("pop", "popleft", "popitem", "setdefault"):
                            read.add(root.id)
                        for a in n.args:
                            self.visit(a)
                        for a in n.keywords:
                            self.visit(a.value)
                        return
                    if isinstance(root, ast.Subscript) and isinstance(root.value, ast.Name):
                        mut.add(root.value.id)
                        self.visit(root.slice)
                        for a in n.args:
                            self.visit(a)
                        return
                self.generic_visit(n)

            def visit_Subscript(self, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                    mut.add(n.value.id)
                    if isinstance(n.ctx, ast.Del):
                        read.add(n.value.id)
                    self.visit(n.slice)
                    return
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    # x[i][j] = v
                    r = n.value
                    while isinstance(r, (ast.Subscript, ast.Attribute)):
                        r = r.value
                    if isinstance(r, ast.Name):
                        mut.add(r.id)
                        read.add(r.id)
                self.generic_visit(n)

            def visit_Assign(self, n):
                if (
                    len(n.targets) == 1
                    and isinstance(n.targets[0], ast.Subscript)
                    and isinstance(n.value, ast.BinOp)
                    and isinstance(n.value.right, ast.Constant)
                    and ast.unparse(n.value.left) == ast.unparse(n.targets[0])
                ):
                    self.visit_AugAssign(
                        ast.AugAssign(target=n.targets[0], op=n.value.op, value=n.value.right)
                    )
                    return
                self.generic_visit(n)

            def visit_AugAssign(self, n):
                if isinstance(n.target, ast.Name):
                    mut.add(n.target.id)
                    self.visit(n.value)
                    return
                if isinstance(n.target, ast.Subscript) and isinstance(n.target.value, ast.Name):
                    mut.add(n.target.value.id)
                    self.visit(n.target.slice)
                    self.visit(n.value)
                    return
                self.generic_visit(n)

            def visit_Name(self, n):
                if isinstance(n.ctx, ast.Load):
                    read.add(n.id)

        v = V()
        for s in stmts:
            v.visit(s)
        return mut, read

    def opaque_for_loop(self, body, extra=()):
        """Local collections that are mutated and read in the loop become cells."""
        mut, read = self.mutated_and_read(list(body) + list(extra))
        for n in sorted(mut & read):
            v = self.env.get(n)
            if v is None:
                continue
            for c, leaf in v[1] if v[0] == "case" else ((TRUE, v),):
                if leaf[0] == "obj" and self.objs[leaf[1]].opaque is None:
                    self.make_opaque(leaf[1], self.objs[leaf[1]].name or n)
        # nested functions that mutate captured collections
        for k, v in list(self.env.items()):
            if v[0] == "fn" and any(
                isinstance(x, ast.Name) and x.id == k for s in body for x in ast.walk(s)
            ):
                fnode = self.fns[v[1]]["node"]
                m2, r2 = self.mutated_and_read(
                    fnode.body if isinstance(fnode.body, list) else [fnode.body]
                )
                for n in sorted(m2 | (r2 & mut)):
                    w = self.env.get(n)
                    if w is not None and w[0] == "obj" and self.objs[w[1]].opaque is None:
                        self.make_opaque(w[1], self.objs[w[1]].name or n)

    def kill_mem(self, stmts, entry=False):
        """Forget forwarded stores that stmts may overwrite."""
        reb, mut = self.effects().of_stmts(stmts, self.cls.name if self.cls else None)
        self.changed(reb | mut)
        for k in [k for k in self.env if isinstance(k, tuple) and k[0] == "m"]:
            t = k[1]
            while t[0] in ("sub", "post"):
                t = t[1]
            if t[0] != "attr" or t[2] in (reb if k[1][0] == "attr" else reb | mut):
                del self.env[k]
        if entry:
            self.snapshot(reb, mut)

    def do_For(self, s):
        if literal_items(s.iter) and not s.orelse and not jumps(s.body):
            for e in s.iter.elts:
                self.assign(s.target, self.ev(e))
                self.block(s.body)
            return
        it = self.ev(s.iter)
        self.opaque_for_loop(s.body)
        self.kill_mem(s.body)
        it = self.val(it)
        if it[0] == "case":
            it = self.simp(it)
        doms, g, elem = self.iter_spec(it)
        self.loop(s, doms, g, lambda: self.assign(s.target, elem), s.target)

    def do_While(self, s):
        self.opaque_for_loop(s.body, [ast.Expr(s.test)])
        self.kill_mem(s.body, True)
        u = self.newuid()
        self.loop(s, None, None, None, None, u)

    def loop(self, s, doms, guard, binder, target, wuid=None):
        bound, aug = self.assigned_names(s.body)
        if target is not None:
            for n in ast.walk(target):
                if isinstance(n, ast.Name):
                    bound.discard(n.id)
        lvs = {}
        uid = wuid if wuid is not None else doms[-1][1]
        for n in sorted(bound | aug):
            pre = self.env.get(n)
            if pre is None and n in bound and read_first(s.body, n):
                pre = ("undef",)
            if pre is None or pre[0] == "fn":
                continue
            if pre[0] == "obj" and n not in bound:
                continue
            if pre[0] == "obj":
                pre = self.val(pre)
            lvs[n] = pre
            self.env[n] = ("lv", uid, n)
        start = len(self.facts)
        pre_mem = {k: v for k, v in self.env.items() if isinstance(k, tuple)}
        outer_alive = self.alive
        rec = LoopRec(1 if doms is None else len(doms))
        if doms is None:
            f = Frame(uid, "while", ("while",))
            f.outer_alive = self.alive
            self.doms_seen[uid] = ("while", ("while",))
            self.frames.append(f)
            self.alive = TRUE
            cond = T.tobdd(self.now(self.val(self.ev(s.test))))
            self.alive = cond
        else:
            self.push(doms, guard)
            cond = None
        rec.frame = self.frames[-1]
        rec.base = len(self.frames) - rec.nframes
        self.loops.append(rec)
        if binder:
            binder()
        self.block(s.body)
        self.loops.pop()
        end_env, end_alive = self.env, self.alive
        states = rec.continues + [(end_env, end_alive)]
        states = [(e, a) for e, a in states if a != FALSE]
        breaks = [(e, a) for e, a in rec.breaks if a != FALSE]
        frames = self.frames[rec.base:]
        # exits through return/raise
        exits = lor(*frames[-1].exits) if frames[-1].exits else FALSE
        rex = lor(*frames[-1].rexits) if frames[-1].rexits else FALSE
        xex = lor(*frames[-1].xexits) if frames[-1].xexits else FALSE
        brk = lor(*(a for _, a in breaks)) if breaks else FALSE
        closed = {}
        if doms is not None:
            fdoms = [f.dom for f in frames]
            fuids = [f.uid for f in frames]
            inner = TRUE
            for f in frames[1:]:
                inner = land(inner, f.outer_alive)
            exitx = close_exists(land(exits, inner), fdoms, fuids) if exits != FALSE else FALSE
            brkx = close_exists(land(brk, inner), fdoms, fuids) if brk != FALSE else FALSE
            rexx = close_exists(land(rex, inner), fdoms, fuids) if rex != FALSE else FALSE
            xexx = close_exists(land(xex, inner), fdoms, fuids) if xex != FALSE else FALSE
        self.pop(rec.nframes)
        assert self.alive == outer_alive
        # ---- classify loop carried variables
        after = {}
        base_env = dict(end_env) if end_alive != FALSE or not states else dict(states[0][0])
        subst = {}
        for n, pre in lvs.items():
            lv = ("lv", uid, n)
            vals = [(a, e.get(n, lv)) for e, a in states]
            bvals = [(a, e.get(n, lv)) for e, a in breaks]
            vals = [(a, self.val(v)) for a, v in vals]
            bvals = [(a, self.val(v)) for a, v in bvals]
            if all(v == lv for _, v in vals) and all(v == lv for _, v in bvals):
                subst[lv] = pre
                after[n] = pre
                continue
            done = False
            if doms is not None:
                done = self.classify(n, lv, pre, vals, bvals, frames, start, after, brkx)
            if not done:
                loc = ("loc", n)
                subst[lv] = loc
                after[n] = loc
                if pre != loc and pre != ("undef",):
                    self.emit("assign", loc, self.val(pre))
                for a, v in vals + bvals:
                    if v == lv or v == loc:
                        continue
                    self.seq += 1
                    g = land(a, *[f.outer_alive for f in frames])
                    for f in self.frames:
                        g = land(g, f.outer_alive)
                    for c, x in v[1] if v[0] == "case" else ((TRUE, v),):
                        gg = land(g, c)
                        if x == lv or gg == FALSE:
                            continue
                        self.facts.append(
                            Fact(
                                "assign", (loc, x),
                                tuple((f.kind, f.uid) for f in self.frames + frames),
                                gg, self.seq, self.line, self.scope,
                            )
                        )
        has_effects = any(len(f.ctx) > len(self.frames) for f in self.facts[start:])
        if brk != FALSE or rex != FALSE:
            fids = {f.uid for f in frames}
            has_effects = has_effects or brk != FALSE and exits != FALSE or any(
                o.opaque is None and o.depth <= rec.base and any(fr[1] in fids for fr in c[2])
                for o in self.objs.values() for c in o.contribs
            )
        # environment after the loop
        env = {}
        ends = [e for e, _ in states] + [e for e, _ in breaks]
        for k, v in pre_mem.items():
            # what no iteration changes is still known
            if all(e.get(k) == v for e in ends) and (
                k[0] != "m" or not any(T.contains(v, f.uid) for f in frames)
            ):
                env[k] = v
        for e in ends:
            for k, v in e.items():
                if isinstance(k, tuple) and k[0] == "v":
                    if not any(T.contains(k[1], f.uid) for f in frames):
                        env[k] = v
        for k, v in base_env.items():
            if isinstance(k, tuple):
                continue
            if k in after:
                env[k] = after[k]
            elif v[0] in ("obj", "fn"):
                env[k] = v
            else:
                w = self.val(v)
                if any(T.contains(w, f.uid) for f in frames):
                    if doms is not None:
                        (w2,), c2, d2 = close_terms(
                            (w,), TRUE, [f.dom for f in frames], [f.uid for f in frames]
                        )
                        w = ("last", tuple(d2), w2)
                    else:
                        w = ("lastw", w)
                env[k] = w
        for e, a in breaks:
            for k, v in e.items():
                if k not in env and not isinstance(k, tuple):
                    env[k] = v if v[0] in ("obj", "fn") else ("brk", self.val(v))
        self.env = env
        self.kill_mem(s.body)
        if doms is None:
            if cond == TRUE and not breaks:
                self.alive = FALSE
            elif not (cond == TRUE):
                pass
            g0 = land(lnot(cond), *[f.outer_alive for f in frames])
            exitg = lor(g0, land(brk, *[f.outer_alive for f in frames]))
            self.seq += 1
            fg = exitg
            for f in self.frames:
                fg = land(fg, f.outer_alive)
            if fg != FALSE:
                self.facts.append(
                    Fact(
                        "exit", (), tuple((f.kind, f.uid) for f in self.frames + frames),
                        fg, self.seq, self.line, self.scope,
                    )
                )
            if s.orelse:
                self.block(s.orelse)
        else:
            stop = lor(brk, rex)
            if stop != FALSE and has_effects:
                g0 = land(stop, *[f.outer_alive for f in frames])
                for f in self.frames:
                    g0 = land(g0, f.outer_alive)
                self.seq += 1
                self.facts.append(
                    Fact(
                        "exit", (), tuple((f.kind, f.uid) for f in self.frames + frames),
                        g0, self.seq, self.line, self.scope,
                    )
                )
            if exitx != FALSE:
                self.alive = land(self.alive, lnot(exitx))
                base = self.rets["depth"] if self.rets is not None else self._scope_depth
                if len(self.frames) > base:
                    self.frames[-1].exits.append(land(outer_alive, exitx))
                    if rexx != FALSE:
                        self.frames[-1].rexits.append(land(outer_alive, rexx))
                elif xexx != FALSE and len(self.frames) > self._scope_depth:
                    # out of an inlined helper as well
                    self.frames[-1].exits.append(land(outer_alive, xexx))
                if xexx != FALSE and len(self.frames) > self._scope_depth:
                    self.frames[-1].xexits.append(land(outer_alive, xexx))
            if s.orelse:
                e0, a0 = self.fork()
                self.alive = land(a0, lnot(brkx))
                self.block(s.orelse)
                self.merge([(self.env, self.alive), (e0, land(a0, brkx))])
        if subst:
            self.substitute(subst, start)

    def classify(self, n, lv, pre, vals, bvals, frames, start, after, brkx):
        doms = [f.dom for f in frames]
        uids = [f.uid for f in frames]
        # is the running value read inside the loop?
        for f in self.facts[start:]:
            if mentions(f.guard, lv) or any(mentions(p, lv) for p in f.payload):
                return False
        for o in self.objs.values():
            for op, args, frs, guard in o.contribs:
                if mentions(guard, lv) or any(mentions(a, lv) for a in args):
                    return False
        inner = TRUE
        for f in frames[1:]:
            inner = land(inner, f.outer_alive)
        leaves = []
        for a, v in vals:
            if mentions(a, lv):
                return False
            for c, x in v[1] if v[0] == "case" else ((TRUE, v),):
                if mentions(c, lv):
                    return False
                g = land(a, c)
                if g != FALSE:
                    leaves.append((g, x))
        bl = []
        for a, v in bvals:
            if mentions(a, lv):
                return False
            for c, x in v[1] if v[0] == "case" else ((TRUE, v),):
                if mentions(c, lv):
                    return False
                g = land(a, c)
                if g != FALSE:
                    bl.append((g, x))
        changed = [(g, x) for g, x in leaves if x != lv]
        bchanged = [(g, x) for g, x in bl if x != lv]
        # found-and-break
        if not changed and bchanged:
            if len({x for _, x in bchanged}) == 1:
                x = bchanged[0][1]
                g = lor(*(g for g, _ in bchanged))
                ex = close_exists(land(g, inner), doms, uids)
                (x2,), c2, d2 = close_terms((x,), land(g, inner), doms, uids)
                val = x if x2 == x else ("first", tuple(d2), c2, x2)
                if mentions(val, lv):
                    return False
                after[n] = mkcase([(ex, val), (lnot(ex), pre)])
                return True
            return False
        if bchanged:
            return False
        # flag
        ks = {x for _, x in changed}
        if len(ks) == 1 and not bl:
            x = next(iter(ks))
            if not any(T.contains(x, u) for u in uids) and not mentions(x, lv):
                g = lor(*(g for g, _ in changed))
                ex = close_exists(land(g, inner), doms, uids)
                after[n] = mkcase([(ex, x), (lnot(ex), pre)])
                return True
        # sum
        if not bl and all(is_incr(x, lv) for _, x in changed):
            contribs = []
            for g, x in changed:
                e = T.mkadd(x, lv, -1)
                (e2,), g2, d2 = close_terms((e,), land(g, inner), doms, uids)
                contribs.append(("append", (e2,), g2, tuple(d2)))
            after[n] = T.mkplus(pre, mksum(contribs))
            return True
        # one step per item: a fold
        if not bl and len(frames) == 1 and changed and not has_lv([x for _, x in leaves], lv):
            acc = ("acc", n_accs([x for _, x in leaves]))
            step = mkcase((g, T.rebuild(x, lambda t: acc if t == lv else None)) for g, x in leaves)
            (step2,), _, d2 = close_terms((step,), TRUE, doms, uids)
            after[n] = ("fold", d2[0], step2, pre)
            return True
        return False

    def substitute(self, m, start):
        """Replace loop variables by what they turned out to be."""
        carried = {}
        for k, v in m.items():
            if k[0] == "lv" and v[0] == "loc" and self.doms_seen.get(k[1], ("",))[0] == "for":
                carried.setdefault(self.doms_seen[k[1]][1], []).append((k[2], v))

        def f(x):
            if x[0] == "first" and len(x[1]) == 1 and x[1][0] in carried:
                # the value at the exit of a loop of what the loop carries
                mm = {("lv", "h1", n): v for n, v in carried[x[1][0]]}
                leaf = T.rebuild(x[3], mm.get)
                if not mentions_id(leaf, "h1"):
                    return leaf
            return m.get(x)

        def sub(t):
            if any(mentions(t, k) for k in m) or carried and has_head(t, "first"):
                return T.rebuild(t, f)
            return t

        for fct in self.facts[start:]:
            fct.guard = sub(fct.guard)
            fct.payload = tuple(sub(p) for p in fct.payload)
        for k, v in list(self.env.items()):
            if v[0] not in ("obj", "fn"):
                self.env[k] = sub(v)
        self.alive = sub(self.alive)
        for o in self.objs.values():
            for c in o.contribs:
                c[1] = tuple(sub(a) if a[0] not in ("obj", "fn") else a for a in c[1])
                c[3] = sub(c[3])
                c[2] = [(k, u, sub(d)) for k, u, d in c[2]]
        for u, (k, d) in list(self.doms_seen.items()):
            self.doms_seen[u] = (k, sub(d))
        for fr in self.frames:
            fr.exits = [sub(e) for e in fr.exits]
            fr.rexits = [sub(e) for e in fr.rexits]
            fr.xexits = [sub(e) for e in fr.xexits]
            fr.outer_alive = sub(fr.outer_alive)
        if self.rets is not None:
            self.rets["out"] = [(sub(g), sub(v) if v[0] not in ("obj", "fn") else v) for g, v in self.rets["out"]]

    def do_Continue(self, s):
        rec = self.loops[-1]
        self.loop_jump(rec.continues)

    def do_Break(self, s):
        rec = self.loops[-1]
        self.loop_jump(rec.breaks)

    def loop_jump(self, where):
        where.append((dict(self.env), self.alive))
        self.alive = FALSE

    # -- nested functions

    def do_FunctionDef(self, s):
        fid = self.newuid()
        rec = any(
            isinstance(n, ast.Name) and n.id == s.name and isinstance(n.ctx, ast.Load)
            for b in s.body
            for n in ast.walk(b)
        )
        self.fns[fid] = {"node": s, "rec": rec, "name": s.name, "frame": self.frame_id}
        self.env[s.name] = ("fn", fid)
        if rec:
            m2, r2 = self.mutated_and_read(s.body)
            for n in sorted(m2 | r2):
                w = self.env.get(n)
                if w is not None:
                    self.opaquify(w, n)
            self.analyse_nested(s, ("nested", s.name))
            self.env[s.name] = ("nested", s.name)

    def analyse_nested(self, s, tag):
        save = (
            self.env, self.alive, self.frames, self.loops, self.rets, self.scope,
            self._scope_depth, self.yieldobj,
        )
        self.env = dict(self.env)
        self.env[s.name] = tag
        a = s.args
        for i, p in enumerate(a.posonlyargs + a.args):
            self.env[p.arg] = ("np", tag[1], i)
        for p in a.kwonlyargs:
            self.env[p.arg] = ("np", tag[1], p.arg)
        if a.vararg:
            self.env[a.vararg.arg] = ("np", tag[1], "*")
        if a.kwarg:
            self.env[a.kwarg.arg] = ("np", tag[1], "**")
        for k in [k for k in self.env if isinstance(k, tuple)]:
            del self.env[k]
        self.alive = TRUE
        self.frames = []
        self.loops = []
        self.rets = None
        self.yieldobj = None
        self._scope_depth = 0
        self.scope = self.scope + (tag[1],)
        br, self.boolret = self.boolret, _returns_bool(s)
        self.block(s.body)
        if self.alive != FALSE and not _is_gen(s):
            self.emit("return", T.NONE)
        self.boolret = br
        (
            self.env, self.alive, self.frames, self.loops, self.rets, self.scope,
            self._scope_depth, self.yieldobj,
        ) = save

    def closure_env(self, info):
        """The names visible to a nested function: those of its own frame."""
        fr = info.get("frame")
        if fr == self.frame_id or fr not in self.frame_envs:
            return self.env
        env = {k: v for k, v in self.frame_envs[fr].items() if not isinstance(k, tuple)}
        env.update((k, v) for k, v in self.env.items() if isinstance(k, tuple))
        return env

    def fn_value(self, fid):
        """A nested function or lambda used as a value."""
        info = self.fns[fid]
        env = self.closure_env(info)
        if env is not self.env:
            save = self.env, self.frame_id
            self.env, self.frame_id = env, info["frame"]
            try:
                return self.fn_value(fid)
            finally:
                self.env, self.frame_id = save
        if info.get("busy"):
            return ("fnself",)
        node = info["node"]
        a = node.args
        names = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        u = self.newuid()
        info["busy"] = True
        try:
            if isinstance(node, ast.Lambda):
                save = dict(self.env)
                for i, n in enumerate(names):
                    self.env[n] = ("lp", u, i)
                body = self.val(self.ev(node.body))
                self.env = save
            else:
                save = (self.env, self.alive, self.frames, self.loops, self.rets,
                        self._scope_depth, self.yieldobj, self.facts, self.scope)
                self.env = {k: v for k, v in self.env.items() if not isinstance(k, tuple)}
                for i, n in enumerate(names):
                    self.env[n] = ("lp", u, i)
                self.alive, self.frames, self.loops = TRUE, [], []
                self.rets = {"out": [], "depth": 0}
                self._scope_depth = 0
                self.facts = []
                yo = None
                if _is_gen(node):
                    yo = self.newobj("seq")
                    self.yieldobj = yo[1]
                else:
                    self.yieldobj = None
                self.block(node.body)
                outs = self.rets["out"]
                if self.alive != FALSE:
                    outs = outs + [(self.alive, T.NONE)]
                if yo:
                    body = self.val(yo)
                else:
                    body = mkcase(outs)
                facts = self.facts
                (self.env, self.alive, self.frames, self.loops, self.rets,
                 self._scope_depth, self.yieldobj, self.facts, self.scope) = save
                if facts:
                    fs = tuple(
                        sorted(
                            ((f.kind, f.payload, f.guard) for f in facts), key=T.key
                        )
                    )
                    body = ("effects", body, fs)
        finally:
            info["busy"] = False
        h = height(body)
        body = rename(body, {u: f"h{h + 1}"})
        # eta: lambda x: f(x) is f
        if (
            body[0] == "call"
            and not body[3]
            and body[2] == tuple(("lp", f"h{h + 1}", i) for i in range(len(names)))
            and not mentions_id(body[1], f"h{h + 1}")
        ):
            return body[1]
        return ("lam", const(len(names)), body)

    def do_ClassDef(self, s):
        pass

    # ----------------------------------------------------------- expressions

    def ev(self, e):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(type(e).__name__)
        return m(e)

    def evv(self, e):
        return self.val(self.ev(e))

    def ev_Constant(self, e):
        return const(e.value)

    def ev_Name(self, e):
        n = e.id
        if n in self.env:
            v = self.simp(self.env[n])
            if v[0] in ("attr", "sub") and self.is_mutated(v):
                return ("post", v)
            return v
        return self.global_name(n)

    def global_name(self, n):
        imp = self.prog.imports.get(self.module, {})
        consts = self.prog.consts.get(self.module, {})
        if n in consts:
            v = literal(consts[n])
            if v is not None:
                return v
            return ("g", n)
        if n in imp:
            tgt = imp[n]
            # constant of another module
            for rel, cs in self.prog.consts.items():
                if tgt in cs and tgt not in self.prog.classes and tgt not in self.prog.funcs:
                    v = literal(cs[tgt])
                    if v is not None:
                        return v
            return ("g", tgt)
        return ("g", n)

    def ev_Attribute(self, e):
        b = self.evv(e.value)
        return self.attr(b, e.attr)

    def attr(self, b, n):
        if b[0] == "case":
            return mkcase((c, self.attr(x, n)) for c, x in b[1])
        term = ("attr", b, n)
        m = self.env.get(("m", term))
        if m is not None:
            return self.simp(m)
        if b[0] == "g":
            # module attribute or class attribute
            if b[1] in self.prog.classes:
                v = self.class_const(b[1], n)
                if v is not None:
                    return v
                f = self.prog.lookup(b[1], n)
                if f is not None and f.kind in ("static", "class"):
                    return ("smeth", n)
                return term
            if b[1] in MODULES:
                return ("g", b[1] + "." + n)
            return term
        if b[0] in ("self", "cls"):
            cname = self.cls.name if self.cls else None
            if cname:
                v = self.class_const(cname, n)
                if v is not None:
                    return v
                f = self.prog.lookup(cname, n)
                if f is not None and (f.kind in ("static", "class") or n in self.prog.extra_smeth):
                    return ("smeth", n)
                if (
                    f is not None
                    and f.kind == "property"
                    and f.qual in self.inline
                    and f not in self.stack
                ):
                    return self.run_inline(f, b, [], {})
        if b[0] == "call" and b[1] == ("g", "type") and len(b[2]) == 1 and b[2][0] == ("self",):
            return self.attr(("cls",), n)
        if self.is_mutated(term):
            return ("post", term)
        return term

    def class_const(self, cname, n):
        a = self.prog.class_attr(cname, n)
        if a is None:
            return None
        if isinstance(a, tuple):
            _, v, i = a
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "range":
                args = [literal(x) for x in v.args]
                if all(x is not None and T.is_int(x) for x in args):
                    r = list(range(*[x[2] for x in args]))
                    if i < len(r):
                        return const(r[i])
            if isinstance(v, (ast.Tuple, ast.List)) and i < len(v.elts):
                return literal(v.elts[i])
            return None
        if self.prog.attr_assigned(n):
            return None
        return literal(a)

    def mutated(self, term, store=False):
        """Remember that the object held in term was changed here."""
        self.changed(self.roots(term))
        k = ("v", strip_post(term))
        if not store:
            self.env[k] = T.CTRUE
        else:
            # a new object
            self.env.pop(k, None)
            self.env.pop(("len", strip_post(term)), None)

    def is_mutated(self, term):
        if self.env.get(("v", term)) is not None:
            return True
        if term[0] == "attr" and term[1] == ("self",):
            f = self.effects().props.get(term[2])
            e = prop_expr(f) if f is not None else None
            if e is not None:
                return any(
                    self.env.get(("v", ("attr", ("self",), n.attr))) is not None
                    for n in ast.walk(e)
                    if isinstance(n, ast.Attribute)
                )
        return False

    def ev_Subscript(self, e):
        b = self.ev(e.value)
        if b[0] == "g" and b[1].split(".")[-1] in self.prog.classes:
            # a generic class, specialised
            return b
        i = self.index(e.slice)
        i = self.val(i)
        if b[0] == "obj":
            o = self.objs[b[1]]
            if o.opaque is None and o.kind == "seq" and T.is_int(i):
                v = self.val(b)
                return T.mksub(v, i)
            b = self.val(b)
        else:
            b = self.val(b)
        i = self.simp(i)
        b = self.simp(b)
        if b[0] == "case" or i[0] == "case":
            return T.distribute(self.sub2, (b, i))
        return self.sub2(b, i)

    def sub2(self, b, i):
        t = T.mksub(b, i)
        raw = ("sub", strip_post(b), i)
        m = self.env.get(("m", raw))
        if m is not None:
            return m
        return t

    def index(self, s):
        if isinstance(s, ast.Slice):
            lo = self.evv(s.lower) if s.lower else T.NONE
            hi = self.evv(s.upper) if s.upper else T.NONE
            st = self.evv(s.step) if s.step else T.NONE
            if lo == const(0):
                lo = T.NONE
            return ("slice", lo, hi, st)
        return self.ev(s)

    def ev_Slice(self, s):
        return self.index(s)

    def ev_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.val(self.ev(x.value))
                if v[0] == "tuple":
                    out.extend(v[1:])
                else:
                    out.append(("star", v))
            else:
                out.append(self.ev(x))
        if any(x[0] == "star" for x in out):
            vals = tuple(self.val(x) for x in out)
            if any(x[0] == "star" and x[1][0] == "case" for x in vals):
                flat = tuple(x[1] if x[0] == "star" else x for x in vals)
                stars = [x[0] == "star" for x in vals]
                return T.distribute(
                    lambda *xs: mkstar(tuple(("star", x) if st else x for st, x in zip(stars, xs))), flat
                )
            return mkstar(vals)
        if len(out) >= 2 and all(
            x[0] == "sub" and x[2] == const(i) and x[1] == out[0][1] for i, x in enumerate(out)
        ):
            # (p[0], p[1]) is the pair p
            return out[0][1]
        return ("tuple",) + tuple(out)

    def ev_List(self, e):
        o = self.newobj("seq")
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.contribute(o[1], "extend", self.evv(x.value))
            else:
                self.contribute(o[1], "append", self.ev(x))
        return o

    def ev_Set(self, e):
        o = self.newobj("set")
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.contribute(o[1], "update", self.evv(x.value))
            else:
                self.contribute(o[1], "add", self.evv(x))
        return o

    def ev_Dict(self, e):
        o = self.newobj("dict")
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.contribute(o[1], "update", self.evv(v))
            else:
                self.contribute(o[1], "setitem", self.evv(k), self.ev(v))
        return o

    def ev_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.evv(v.value))
        return ("fstr",) + tuple(parts)

    def ev_FormattedValue(self, e):
        return self.evv(e.value)

    def ev_Starred(self, e):
        return ("star", self.evv(e.value))

    def ev_Lambda(self, e):
        fid = self.newuid()
        self.fns[fid] = {"node": e, "rec": False, "name": "<lambda>", "frame": self.frame_id}
        return ("fn", fid)

    def ev_Yield(self, e):
        self.do_yield(e)
        return ("sent",)

    def ev_YieldFrom(self, e):
        self.do_yieldfrom(e)
        return ("sent",)

    def ev_NamedExpr(self, e):
        v = self.ev(e.value)
        self.env[e.target.id] = v
        return v

    def ev_IfExp(self, e):
        c = T.tobdd(self.now(self.val(self.ev(e.test))))
        save = self.alive
        self.alive = land(save, c)
        a = self.ev(e.body) if self.alive != FALSE else ("undef",)
        self.alive = land(save, lnot(c))
        b = self.ev(e.orelse) if self.alive != FALSE else ("undef",)
        self.alive = save
        if a[0] == "fn":
            a = self.val(a)
        if b[0] == "fn":
            b = self.val(b)
        return mkcase([(c, a), (lnot(c), b)])

    def ev_BoolOp(self, e):
        save = self.alive
        is_and = isinstance(e.op, ast.And)
        vals = []
        cond = TRUE
        for x in e.values:
            self.alive = land(save, cond)
            v = self.val(self.ev(x)) if self.alive != FALSE else T.CFALSE
            t = T.tobdd(self.now(v))
            vals.append((cond, v, t))
            cond = land(cond, t if is_and else lnot(t))
        self.alive = save
        branches = []
        for i, (c, v, t) in enumerate(vals):
            if i == len(vals) - 1:
                branches.append((c, v))
            else:
                branches.append((land(c, lnot(t) if is_and else t), v))
        # boolean operands give a boolean
        if all(v[0] == "bool" or v in (T.CTRUE, T.CFALSE) for _, v, _ in vals):
            return T.mkbool(lor(*(land(c, t) for (c, _), (_, _, t) in zip(branches, vals))))
        return ("andor",) if not branches else self.mk_andor(branches, vals, is_and)

    def mk_andor(self, branches, vals, is_and):
        fixed = []
        for (c, v), (_, _, t) in zip(branches[:-1], vals[:-1]):
            if is_and and (v[0] == "bool"):
                v = T.CFALSE
            elif not is_and and v[0] == "bool":
                v = T.CTRUE
            fixed.append((c, v))
        fixed.append(branches[-1])
        return mkcase(fixed)

    def ev_UnaryOp(self, e):
        v = self.evv(e.operand)
        if isinstance(e.op, ast.Not):
            return T.mkbool(lnot(T.tobdd(self.now(v))))
        if isinstance(e.op, ast.USub):
            return T.distribute(lambda x: T.mkscale(x, -1), (v,))
        if isinstance(e.op, ast.UAdd):
            return v
        return ("un", type(e.op).__name__, v)

    def ev_BinOp(self, e):
        if isinstance(e.op, ast.Mult):
            for x, n in ((e.left, e.right), (e.right, e.left)):
                if isinstance(x, ast.List) and len(x.elts) == 1 and isinstance(x.elts[0], ast.Constant):
                    gen = ast.comprehension(
                        ast.Name("_", ast.Store()),
                        ast.Call(ast.Name("range", ast.Load()), [n], []), [], 0,
                    )
                    c = ast.ListComp(x.elts[0], [gen])
                    return self.ev(ast.fix_missing_locations(ast.copy_location(c, e)))
        a, b = self.evv(e.left), self.evv(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        a, b = self.simp(a), self.simp(b)

        def f(x, y):
            if op == "Add":
                return T.mkplus(x, y)
            if op == "Sub":
                if T.seqlike(x) or T.seqlike(y):
                    return ("bin", "Sub", x, y)
                return T.mkadd(x, y, -1)
            if op == "Mult":
                for p, n in ((x, y), (y, x)):
                    one = p[1] if p[0] == "tuple" and len(p) == 2 else None
                    if one is not None and T.is_const(one) and n[0] not in ("tuple", "coll"):
                        return ("coll", "seq", (("append", (one,), TRUE, (range_dom(n),)),))
                return T.mkmul(x, y)
            if op in ("BitOr", "BitAnd", "BitXor"):
                x, y = sorted((x, y), key=T.key)
                if op == "BitOr" and any(z[0] == "coll" and z[1] == "set" for z in (x, y)):
                    return T.mkcall(("union",), (x, y))
            return ("bin", op, x, y)

        return T.distribute(f, (a, b))

    def ev_Compare(self, e):
        left = self.evv(e.left)
        res = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.evv(r)
            if isinstance(op, (ast.In, ast.NotIn)):
                right = self.now(right)
            res = land(res, self.compare(type(op).__name__, left, right))
            left = right
        return T.mkbool(res)

    def compare(self, op, a, b):
        a, b = self.simp(a), self.simp(b)
        if op in ("LtE", "GtE"):
            small, big = (a, b) if op == "LtE" else (b, a)
            if any(x[0] == "coll" and x[1] == "set" for x in (small, big)):
                return lnot(self.exists(small, lambda e: lnot(T.mkin(e, big))))
        if op == "Lt":
            return T.mklt(a, b)
        if op == "Gt":
            return T.mklt(b, a)
        if op == "LtE":
            return lnot(T.mklt(b, a)) if a[0] != "case" and b[0] != "case" else lnot(T.mklt(b, a))
        if op == "GtE":
            return lnot(T.mklt(a, b))
        if op == "Eq":
            return T.mkeq(a, b)
        if op == "NotEq":
            return lnot(T.mkeq(a, b))
        if op == "Is":
            return T.mkis(a, b)
        if op == "IsNot":
            return lnot(T.mkis(a, b))
        if op == "In":
            return T.mkin(a, b)
        if op == "NotIn":
            return lnot(T.mkin(a, b))
        raise Unsupported(op)

    # comprehensions

    def comp(self, kind, gens, elt, value=None, stop=None):
        o = self.newobj(kind)
        start = len(self.facts)
        if len(gens) == 1 and literal_items(gens[0].iter) and not stop and kind != "dict":
            save, alive = dict(self.env), self.alive
            for x in gens[0].iter.elts:
                self.assign(gens[0].target, self.ev(x))
                self.alive = alive
                for c in gens[0].ifs:
                    self.alive = land(self.alive, T.tobdd(self.evv(c)))
                if self.alive != FALSE:
                    self.contribute(o[1], "append" if kind == "seq" else "add", self.evv(elt))
            self.alive = alive
            for k in list(self.env):
                if k not in save and not isinstance(k, tuple):
                    del self.env[k]
            self.env.update(save)
            return o
        save = dict(self.env)
        n = 0
        for g in gens:
            it = self.evv(g.iter)
            if it[0] == "case":
                it = self.simp(it)
            doms, guard, elem = self.iter_spec(it)
            self.push(doms, guard)
            n += len(doms)
            self.assign(g.target, elem)
            for c in g.ifs:
                b = T.tobdd(self.evv(c))
                self.alive = land(self.alive, b)
        if self.alive != FALSE:
            if kind == "dict":
                self.contribute(o[1], "setitem", self.evv(elt), self.evv(value))
            else:
                item = self.evv(elt)
                self.contribute(o[1], "append" if kind == "seq" else "add", item)
                if stop and any(len(f.ctx) >= len(self.frames) for f in self.facts[start:]):
                    # a consumer that stops early, of items computed with effects
                    c = TRUE if stop == "next" else T.tobdd(item)
                    save_alive = self.alive
                    self.alive = land(save_alive, lnot(c) if stop == "all" else c)
                    self.emit("exit")
                    self.alive = save_alive
        self.pop(n)
        for k in list(self.env):
            if k not in save and not isinstance(k, tuple):
                del self.env[k]
        for k, v in save.items():
            self.env[k] = v
        return o

    def ev_ListComp(self, e):
        return self.comp("seq", e.generators, e.elt)

    def ev_GeneratorExp(self, e):
        return self.val(self.comp("seq", e.generators, e.elt, stop=self.gen_stop.get(id(e))))

    def ev_SetComp(self, e):
        return self.comp("set", e.generators, e.elt)

    def ev_DictComp(self, e):
        return self.comp("dict", e.generators, e.key, e.value)

    # calls

    gen_stop = {}

    def ev_Call(self, e):
        if (
            isinstance(e.func, ast.Name)
            and e.func.id in ("next", "any", "all")
            and e.args
            and isinstance(e.args[0], ast.GeneratorExp)
        ):
            self.gen_stop = {id(e.args[0]): e.func.id}
        return self.call(e, stmt=False)

    def is_logging(self, f):
        while isinstance(f, ast.Attribute):
            f = f.value
            if isinstance(f, ast.Call):
                f = f.func
        return isinstance(f, ast.Name) and f.id in LOGGERS and f.id not in self.env

    def open_calls(self, s):
        """In a try body: `x = helper(..)`, `helper(..)` and `return helper(..)`
        of new straight helpers become the statements of the helper."""
        self.opened = getattr(self, "opened", 0)
        body, again = s.body, False
        for _ in range(4):
            out, hit = [], False
            for st in body:
                got = self.open_call(st)
                if got is None:
                    out.append(st)
                else:
                    out.extend(got)
                    hit = again = True
            body = out
            if not hit:
                break
        if not again:
            return s
        s = copy.copy(s)
        s.body = body
        return ast.fix_missing_locations(s)

    def open_call(self, st):
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            n = st.value
        elif isinstance(st, (ast.Expr, ast.Return)):
            n = st.value
        else:
            return None
        if not isinstance(n, ast.Call) or n.keywords or any(isinstance(a, ast.Starred) for a in n.args):
            return None
        if isinstance(n.func, ast.Attribute) and not isinstance(n.func.value, ast.Name):
            return None
        if not isinstance(n.func, (ast.Name, ast.Attribute)):
            return None
        r = self.resolve_inline(n)
        if r is None or r[0].is_generator or r[0].kind == "property" or r[0].module != self.module:
            return None
        fn = r[0]
        body = strip_docstring(fn.node.body)
        a = fn.node.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.defaults or a.posonlyargs or not body:
            return None
        last = body[-1] if isinstance(body[-1], ast.Return) else None
        inner = [x for b in body for x in ast.walk(b)]
        if any(
            isinstance(x, (ast.Return, ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.Yield,
                           ast.YieldFrom, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Try))
            and x is not last
            for x in inner
        ):
            return None
        if last is not None and last.value is None:
            return None
        if last is None and not isinstance(st, ast.Expr):
            return None
        params = [x.arg for x in a.args]
        args = list(n.args)
        if fn.kind in ("method", "class") and isinstance(n.func, ast.Attribute):
            args = [n.func.value] + args
        if len(params) != len(args):
            return None
        self.opened += 1
        tag = f"'o{self.opened}"
        stored = {x.id for x in inner if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        pre, m = [], {}
        for q, v in zip(params, args):
            if q not in stored and isinstance(v, (ast.Name, ast.Constant)):
                m[q] = v
            else:
                pre.append(ast.Assign([ast.Name(q + tag, ast.Store())], v))
                m[q] = ast.Name(q + tag, ast.Load())
        for q in stored - set(m):
            m[q] = ast.Name(q + tag, ast.Load())

        class Put(ast.NodeTransformer):
            def visit_Name(self, x):
                v = m.get(x.id)
                if v is None:
                    return x
                v = copy.deepcopy(v)
                if isinstance(v, ast.Name):
                    v.ctx = type(x.ctx)()
                return ast.copy_location(v, x)

        new = [Put().visit(copy.deepcopy(b)) for b in body]
        if last is not None:
            e = new.pop().value
            if isinstance(st, ast.Assign):
                new.append(ast.Assign(st.targets, e))
            elif isinstance(st, ast.Return):
                new.append(ast.Return(e))
            else:
                new.append(ast.Expr(e))
        out = pre + new
        for x in out:
            ast.copy_location(x, st)
            ast.fix_missing_locations(x)
        return out

    def expand_trivial(self, s):
        """In a try body: calls of new helpers that only return an expression
        are replaced by the expression, so that what can raise stays visible."""

        def plain(x):
            while isinstance(x, ast.Attribute):
                x = x.value
            return isinstance(x, (ast.Name, ast.Constant))

        an = self

        class Expand(ast.NodeTransformer):
            def visit_FunctionDef(self, n):
                return n

            visit_Lambda = visit_FunctionDef

            def visit_Call(self, n):
                self.generic_visit(n)
                if n.keywords or not all(plain(a) for a in n.args):
                    return n
                if not isinstance(n.func, (ast.Name, ast.Attribute)):
                    return n
                if isinstance(n.func, ast.Attribute) and not isinstance(n.func.value, ast.Name):
                    return n
                r = an.resolve_inline(n)
                if r is None or r[0].is_generator:
                    return n
                fn = r[0]
                body = strip_docstring(fn.node.body)
                a = fn.node.args
                if a.vararg or a.kwarg or a.kwonlyargs or a.defaults or a.posonlyargs:
                    return n
                if len(body) == 2 and isinstance(body[0], ast.Assign) and isinstance(body[1], ast.Return):
                    t = body[0].targets
                    if not (
                        len(t) == 1 and isinstance(t[0], ast.Name)
                        and isinstance(body[1].value, ast.Name) and body[1].value.id == t[0].id
                    ):
                        return n
                    value = body[0].value
                elif len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None:
                    value = body[0].value
                else:
                    return n
                params = [x.arg for x in a.args]
                args = list(n.args)
                if fn.kind in ("method", "class") and isinstance(n.func, ast.Attribute):
                    args = [n.func.value] + args
                if len(params) != len(args):
                    return n
                m = dict(zip(params, args))
                if any(
                    isinstance(x, ast.Name) and (x.id not in m and x.id in an.env or not isinstance(x.ctx, ast.Load))
                    for x in ast.walk(value)
                ):
                    return n
                value = copy.deepcopy(value)

                class Put(ast.NodeTransformer):
                    def visit_Name(self, x):
                        return copy.deepcopy(m[x.id]) if x.id in m else x

                return ast.copy_location(Put().visit(value), n)

        if not any(
            isinstance(n, ast.Call) and self.resolve_inline(n) is not None
            for st in s.body for n in ast.walk(st)
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute))
            and (isinstance(n.func, ast.Name) or isinstance(n.func.value, ast.Name))
        ):
            return s
        s = copy.copy(s)
        s.body = [Expand().visit(copy.deepcopy(st)) for st in s.body]
        return s

    def resolve_inline(self, e):
        """(Func, receiver term) if the call is to a function to be inlined."""
        f = e.func
        if isinstance(f, ast.Name):
            if f.id in self.env:
                return None
            tgt = self.prog.imports.get(self.module, {}).get(f.id, f.id)
            fn = self.prog.funcs.get(tgt)
            if fn is not None and fn.qual in self.inline and fn not in self.stack:
                return fn, None
            return None
        if isinstance(f, ast.Attribute):
            n = f.attr
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                return None
            cands = self.prog.by_method.get(n)
            if not cands:
                return None
            if isinstance(f.value, ast.Name):
                base = self.env.get(f.value.id)
                if base in (("self",), ("cls",)) and self.cls is not None:
                    fn = self.prog.lookup(self.cls.name, n)
                    if fn is not None and fn.qual in self.inline and fn not in self.stack:
                        if self.overridden(fn, n):
                            return None
                        return fn, base
                    return None
                if base is None and f.value.id in self.prog.classes:
                    fn = self.prog.lookup(f.value.id, n)
                    if fn is not None and fn.qual in self.inline and fn not in self.stack:
                        if fn.kind in ("static", "class"):
                            return fn, ("cls",)
                    return None
            cands = [c for c in cands if c.qual in self.inline]
            if len(cands) == 1 and len(self.prog.by_method[n]) == 1 and cands[0] not in self.stack:
                if cands[0].kind == "property":
                    return None
                return cands[0], self.evv(f.value)
        return None

    def overridden(self, fn, n):
        for d in self.prog.descendants(fn.cls.name):
            if n in self.prog.classes[d].methods:
                if self.cls.name in [c.name for c in self.prog.mro(d)]:
                    return True
        return False

    def args_of(self, e):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                if v[0] != "tuple":
                    v = self.val(v)
                if v[0] == "tuple":
                    args.extend(v[1:])
                else:
                    args.append(("star", v))
            else:
                args.append(self.ev(a))
        kw = []
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                kw.extend(self.spread(v))
            else:
                kw.append((k.arg, v))
        return args, kw

    def spread(self, v):
        """**v as keywords where its keys are known."""
        v = self.val(v)
        if v[0] == "coll" and v[1] == "dict" and all(
            c[0] == "setitem" and c[1][0][0] == "c" and isinstance(c[1][0][2], str)
            and c[2] == TRUE and not c[3]
            for c in v[2]
        ) and len({c[1][0] for c in v[2]}) == len(v[2]):
            return [(c[1][0][2], c[1][1]) for c in v[2]]
        return [(None, v)]

    def inline_call(self, fn, recv, e, mode="value"):
        args, kw = self.args_of(e)
        return self.run_inline(fn, recv, args, dict(kw), mode)

    def bind(self, node, kind, recv, args, kw):
        """Parameter environment of a call, or None when it cannot be bound."""
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        if kind in ("method", "class", "property"):
            env[params[0]] = recv if kind != "class" else ("cls",)
            params = params[1:]
        if any(x[0] == "star" for x in args) or None in kw:
            return None
        if len(args) > len(params) and not a.vararg:
            return None
        for p, v in zip(params, args):
            env[p] = v
        if a.vararg:
            env[a.vararg.arg] = ("tuple",) + tuple(args[len(params):])
        extra = {}
        for k, v in kw.items():
            if k in params or k in [p.arg for p in a.kwonlyargs]:
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                return None
        if a.kwarg:
            env[a.kwarg.arg] = ("coll", "dict", tuple(sorted(
                (("setitem", (const(k), self.val(v)), TRUE, ()) for k, v in extra.items()), key=T.key
            )))
        nd = len(a.defaults)
        allp = [p.arg for p in a.posonlyargs + a.args]
        for p, d in zip(allp[len(allp) - nd:], a.defaults):
            if p not in env:
                env[p] = self.ev(d)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env and d is not None:
                env[p.arg] = self.ev(d)
        for p in params:
            if p not in env:
                return None
        return env

    def run_inline(self, fn, recv, args, kw, mode="value"):
        if len(self.stack) > self.MAXDEPTH:
            raise Unsupported("inline depth")
        env = self.bind(fn.node, fn.kind, recv, args, kw)
        if env is None:
            raise Unsupported("inline binding of " + fn.qual)
        save = (self.env, self.rets, self.module, self.cls, self.yieldobj, self.loops)
        mem = {k: v for k, v in self.env.items() if isinstance(k, tuple)}
        keepcls = self.cls
        frame = self.frame_id
        self.frame_envs[frame] = self.env
        self.nframes_made += 1
        self.frame_id = self.nframes_made
        self.env = dict(mem)
        self.env.update(env)
        self.module = fn.module
        if fn.cls is not None and not (recv in (("self",), ("cls",)) and keepcls is not None
                                       and fn.cls in self.prog.mro(keepcls.name)):
            if recv not in (("self",),):
                self.cls = fn.cls
        self.stack.append(fn)
        res = self.run_body(unalias(localise(fn.node)), fn.is_generator, mode, _returns_bool(fn.node, self.prog, fn))
        self.stack.pop()
        self.frame_id = frame
        self.frame_envs.pop(frame, None)
        mem = {k: v for k, v in self.env.items() if isinstance(k, tuple)}
        (self.env, self.rets, self.module, self.cls, self.yieldobj, self.loops) = save
        self.env = {k: v for k, v in self.env.items() if not isinstance(k, tuple)}
        self.env.update(mem)
        return res

    def run_body(self, body, is_gen, mode, is_bool=False):
        """Run a body at the current point; the value returned."""
        self.loops = []
        alive0 = self.alive
        self.rets = {"out": [], "depth": len(self.frames)}
        yo = None
        if is_gen and mode != "yieldfrom":
            yo = self.newobj("seq")
            self.yieldobj = yo[1]
        self.block(body)
        outs = self.rets["out"]
        if self.alive != FALSE:
            outs = outs + [(self.alive, T.NONE)]
        # a return leaves the helper only
        if len(self.frames) > 0:
            fr = self.frames[-1]
        self.alive = lor(*(g for g, _ in outs)) if outs else FALSE
        if yo is not None:
            return yo
        if is_gen:
            return T.NONE
        tot = self.alive
        br = []
        left = TRUE
        outs = [(g, v) for g, v in outs if g != FALSE]
        for i, (g, v) in enumerate(outs):
            c = T.restrict(g, tot)
            if i == len(outs) - 1:
                c = left
            else:
                c = land(left, c)
                left = land(left, lnot(c))
            if is_bool and v[0] not in ("bool", "obj") and v not in (T.CTRUE, T.CFALSE):
                v = T.mkbool(T.tobdd(v))
            br.append((c, v))
        if not br:
            return ("undef",)
        return mkcase(br)

    def call_fn(self, fid, args, kw):
        """Call of a local function or lambda."""
        info = self.fns[fid]
        node = info["node"]
        env = self.bind(node, "function", None, args, dict(kw))
        if env is None or info.get("busy"):
            return T.mkcall(self.fn_value(fid), tuple(self.val(a) for a in args), ())
        if len(self.stack) > self.MAXDEPTH:
            raise Unsupported("inline depth")
        save = (self.env, self.rets, self.yieldobj, self.loops)
        inner = dict(self.closure_env(info))
        inner.update(env)
        info["busy"] = True
        body = node.body if isinstance(node.body, list) else []
        nonlocals = {n for b in body for x in ast.walk(b) if isinstance(x, ast.Nonlocal) for n in x.names}
        frame = self.frame_id
        if not nonlocals:
            # functions of the calling frame keep seeing the names of that frame
            outer = self.frame_envs.get(frame)
            self.frame_envs[frame] = self.env
            self.nframes_made += 1
            self.frame_id = self.nframes_made
        try:
            if isinstance(node, ast.Lambda):
                self.env = inner
                r = self.ev(node.body)
                self.env = save[0]
                return r
            self.env = inner
            self.stack.append(info)
            res = self.run_body(node.body, _is_gen(node), "value", _returns_bool(node))
            self.stack.pop()
            mem = {k: v for k, v in self.env.items() if isinstance(k, tuple) or k in nonlocals}
            (self.env, self.rets, self.yieldobj, self.loops) = save
            self.env = {k: v for k, v in self.env.items() if not isinstance(k, tuple)}
            self.env.update(mem)
            return res
        finally:
            info["busy"] = False
            if not nonlocals:
                self.frame_id = frame
                if outer is None:
                    self.frame_envs.pop(frame, None)
                else:
                    self.frame_envs[frame] = outer

    def call(self, e, stmt):
        if self.is_logging(e.func):
            return T.NONE
        inl = self.resolve_inline(e)
        if inl is not None:
            fn, recv = inl
            if fn.is_generator and stmt:
                return T.NONE
            return self.inline_call(fn, recv, e)
        f = e.func
        # method calls
        if isinstance(f, ast.Name) and f.id == "super" and f.id not in self.env:
            return ("super",)
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value)
            if recv == ("super",):
                args, kw = self.args_of(e)
                ft = ("super", f.attr)
                return self.generic_call(ft, args, kw, stmt, f.attr)
            r = self.method_call(recv, f.attr, e, stmt)
            return r
        ft = self.ev(f)
        args, kw = self.args_of(e)
        return self.apply(ft, args, kw, stmt)

    def method_call(self, recv, m, e, stmt):
        if recv[0] == "case" and any(x[0] == "obj" for _, x in recv[1]):
            out = []
            for c, x in recv[1]:
                save = self.alive
                self.alive = land(save, c)
                if self.full_guard() != FALSE:
                    out.append((c, self.method_call(x, m, e, stmt)))
                self.alive = save
            return mkcase(out) if out else T.NONE
        if recv[0] == "obj" and self.objs[recv[1]].opaque is None:
            o = self.objs[recv[1]]
            if m in MUTATORS:
                args, kw = self.args_of(e)
                if m in ("pop", "popleft", "popitem", "setdefault", "sort", "insert") or kw:
                    # value needed: becomes a memory cell
                    loc = self.make_opaque(recv[1], o.name or "_tmp")
                    return self.generic_call(("attr", loc, m), args, kw, stmt, m, mut=True)
                self.contribute(recv[1], m, *[a if a[0] == "obj" else self.val(a) for a in args])
                return T.NONE
            recv = self.val(recv)
        elif recv[0] == "obj":
            recv = self.val(recv)
        else:
            # d[k].append(v) on a local dictionary
            if (
                m in MUTATORS
                and isinstance(e.func.value, ast.Subscript)
                and isinstance(e.func.value.value, ast.Name)
            ):
                b = self.env.get(e.func.value.value.id)
                if b is not None and b[0] == "obj" and self.objs[b[1]].opaque is None:
                    i = self.evv(e.func.value.slice)
                    args, kw = self.args_of(e)
                    self.contribute(b[1], "item." + m, i, *[self.val(a) for a in args])
                    return T.NONE
            recv = self.val(recv)
        args, kw = self.args_of(e)
        if m == "copy" and not args:
            return T.mkcall(("g", "copy.copy"), (recv,))
        recv = self.simp(recv)
        if recv[0] == "case":
            if m in MUTATORS or stmt:
                out = []
                for c, x in recv[1]:
                    save = self.alive
                    self.alive = land(save, c)
                    if self.full_guard() != FALSE:
                        out.append((c, self.method2(x, m, args, kw, stmt)))
                    self.alive = save
                return mkcase(out)
            return mkcase((c, self.method2(x, m, args, kw, stmt)) for c, x in recv[1])
        return self.method2(recv, m, args, kw, stmt)

    def method2(self, recv, m, args, kw, stmt):
        if m in MUTATORS:
            recv = strip_post(recv)
        ft = self.attr(recv, m) if recv[0] in ("self", "cls", "g") else ("attr", recv, m)
        if ft[0] == "post":
            ft = ft[1]
        if ft[0] == "g":
            return self.apply(ft, args, kw, stmt)
        if m == "get" and len(args) in (1, 2) and not kw:
            k = self.val(args[0])
            d = self.val(args[1]) if len(args) == 2 else T.NONE

            def got(key):
                c = T.mkin(key, recv)
                return mkcase([(c, T.mksub(recv, key)), (lnot(c), d)])

            return T.distribute(got, (k,))
        if m == "update" and kw and not args and all(k for k, _ in kw):
            for k, v in kw:
                self.store_item(recv, const(k), v)
            return T.NONE
        if m == "update" and len(args) == 1 and not kw and self.container(recv) != "counter":
            a = self.val(args[0])
            if a[0] == "coll" and a[1] == "dict" and a[2] and all(c[0] == "setitem" for c in a[2]):
                for op, ar, guard, doms in a[2]:
                    ds, g2, a2 = self.open_contrib(ar, guard, doms)
                    self.push(ds, g2)
                    self.store_item(recv, a2[0], a2[1])
                    self.pop(len(ds))
                return T.NONE
        if m == "update" and len(args) == 1 and not kw and self.container(recv) == "counter":
            a = self.val(args[0])
            if a[0] == "tuple" and len(a) == 2 and a[1][0] != "star":
                self.store_incr(strip_post(recv), a[1], const(1))
                return T.NONE
        if m in ("issubset", "issuperset") and len(args) == 1:
            a, b = recv, self.val(args[0])
            if m == "issuperset":
                a, b = b, a
            return T.mkbool(lnot(self.exists(a, lambda e: lnot(T.mkin(e, b)))))
        if m == "isdisjoint" and len(args) == 1:
            b = self.val(args[0])
            return T.mkbool(lnot(self.exists(b, lambda e: T.mkin(e, recv))))
        if m == "difference" and len(args) == 1 and not kw:
            o = self.newobj("set")
            self.contribute(o[1], "update", self.val(args[0]))
            return ("bin", "Sub", recv, self.val(o))
        if m == "__contains__" and len(args) == 1:
            return T.mkbool(T.mkin(self.val(args[0]), recv))
        if m == "__getitem__" and len(args) == 1:
            return T.mksub(recv, self.val(args[0]))
        if m == "union" and len(args) == 1 and not kw:
            x, y = sorted((recv, self.val(args[0])), key=T.key)
            return T.mkcall(("union",), (x, y))
        return self.generic_call(ft, args, kw, stmt, m, mut=m in MUTATORS)

    def normalise_args(self, ft, args, kw, name):
        """Keyword arguments to positions when the callee is known."""
        spread = [("**", v) for k, v in kw if k is None]
        if spread:
            kw = [(k, v) for k, v in kw if k is not None]
        if spread and not (kw and not any(a[0] == "star" for a in args)):
            return args, tuple(sorted(kw + spread, key=lambda p: p[0]))
        if spread:
            # keywords before ** go to their positions
            args, kw = self.normalise_args(ft, args, kw, name)
            return args, tuple(sorted(list(kw) + spread, key=lambda p: p[0]))
        if not kw or any(a[0] == "star" for a in args):
            if not kw:
                # drop trailing arguments equal to the default
                args = self.drop_defaults(ft, args, name)
            return args, tuple(sorted(kw, key=lambda p: p[0]))
        sig = self.signature(ft, name)
        if sig is None:
            return args, tuple(sorted(kw, key=lambda p: p[0]))
        params, defaults = sig
        d = dict(kw)
        out = list(args)
        ok = True
        for p in params[len(args):]:
            if p in d:
                out.append(d.pop(p))
            elif d and any(q in d for q in params):
                if p in defaults:
                    v = literal(defaults[p])
                    if v is None:
                        ok = False
                        break
                    out.append(v)
                else:
                    ok = False
                    break
            else:
                break
        if not ok:
            return args, tuple(sorted(kw, key=lambda p: p[0]))
        out = self.drop_defaults(ft, out, name)
        return out, tuple(sorted(d.items()))

    def drop_defaults(self, ft, args, name):
        sig = self.signature(ft, name)
        if sig is None:
            return args
        params, defaults = sig
        args = list(args)
        while args and len(args) <= len(params) and args[-1][0] == "c":
            p = params[len(args) - 1]
            if p in defaults and literal(defaults[p]) == args[-1]:
                args.pop()
            else:
                break
        return args

    def signature(self, ft, name):
        fns = []
        if ft[0] == "g":
            if ft[1] in self.prog.classes:
                f = self.prog.lookup(ft[1], "__init__")
                fns = [f] if f is not None else []
                if f is None and "NamedTuple" in self.prog.classes[ft[1]].bases:
                    node = self.prog.classes[ft[1]].node
                    fields = [b for b in node.body if isinstance(b, ast.AnnAssign)]
                    return (
                        [b.target.id for b in fields],
                        {b.target.id: b.value for b in fields if b.value is not None},
                    )
            elif ft[1] in self.prog.funcs:
                fns = [self.prog.funcs[ft[1]]]
        elif name is not None:
            fns = self.prog.by_method.get(name, [])
        if not fns:
            return None
        sigs = set()
        res = None
        for f in fns:
            p = f.params()
            if f.kind in ("method", "class"):
                p = p[1:]
            a = f.node.args
            dn = len(a.defaults)
            defaults = dict(zip(f.params()[len(f.params()) - dn:], a.defaults))
            k = (tuple(p), tuple(sorted((x, ast.dump(d)) for x, d in defaults.items())))
            sigs.add(k)
            res = (p, defaults)
        if len(sigs) != 1:
            return None
        return res

    def has_obj(self, t, d=0):
        if t[0] == "obj":
            return self.objs[t[1]].opaque is None
        if t[0] in ("tuple", "star"):
            return any(self.has_obj(x, d + 1) for x in t[1:] if isinstance(x, tuple) and x)
        if t[0] == "case":
            return any(self.has_obj(x, d + 1) for _, x in t[1])
        return False

    def opaquify(self, t, hint):
        """Local collections in t that someone else may change become memory cells."""
        if t[0] == "obj":
            o = self.objs[t[1]]
            if o.opaque is None:
                self.make_opaque(t[1], o.name or hint)
        elif t[0] in ("tuple", "star"):
            for i, x in enumerate(t[1:]):
                if isinstance(x, tuple) and x:
                    self.opaquify(x, f"{hint}.{i}")
        elif t[0] == "case":
            for _, x in t[1]:
                self.opaquify(x, hint)

    def handed_over(self, ft, args, kw):
        """Arguments the callee changes."""
        if not any(self.has_obj(a) for a in args) and not any(self.has_obj(v) for _, v in kw):
            return
        ps = self.prog.param_effects()
        if ft[0] == "nested":
            got = set()
            for info in self.fns.values():
                if info.get("name") == ft[1]:
                    got |= ps.of_node(info["node"])
        elif ft[0] in ("attr", "smeth", "super"):
            got = ps.of_name(ft[-1], True)
        elif ft[0] == "g":
            got = ps.of_name(ft[1].split(".")[-1], False)
        else:
            return
        for i, a in enumerate(args):
            if i in got or got and a[0] == "star":
                self.opaquify(a, f"arg{i}")
        for k, v in kw:
            if k in got:
                self.opaquify(v, k)

    def generic_call(self, ft, args, kw, stmt, name=None, mut=False):
        self.handed_over(ft, args, kw)
        args = [self.val(a) for a in args]
        kw = [(k, self.val(v)) for k, v in kw]
        args, kw = self.normalise_args(ft, args, kw, name)
        if ft[0] == "g" and ft[1] in DRAWS:
            # no two calls give the same answer
            self.draws = getattr(self, "draws", 0) + 1
            args = list(args) + [("loc", f"draw{self.draws}")]
        t = T.mkcall(ft, args, kw)
        if len(args) <= 4 and any(a[0] == "case" for a in args):
            if stmt or mut:
                pass
            else:
                return T.distribute(lambda *xs: T.mkcall(ft, xs, kw), tuple(args))
        if mut and ft[0] == "attr":
            # after the call its receiver is different
            t = self.version(("res", t), self.roots(ft[1]))
            self.emit_call(ft, args, kw)
            self.track_len(ft[1], name, args)
            self.mutated(ft[1])
            return t
        if stmt:
            self.emit_call(ft, args, kw)
            self.forget_calls(ft)
            return T.NONE
        self.note_protected(t)
        t = self.version(t, self.call_reads(ft))
        self.forget_calls(ft)
        return t

    # -- what was read before and after a change is not the same value

    def roots(self, term):
        """Names under which a change of the object in term is recorded."""
        term = strip_post(term)
        while term[0] in ("sub", "at", "post", "old"):
            term = term[1]
        if term[0] == "attr":
            return frozenset((term[2],))
        if term[0] == "loc":
            return frozenset((term,))
        return frozenset()

    def changed(self, names):
        for n in names:
            k = ("w", n)
            v = self.env.get(k)
            self.env[k] = ("c", "int", v[2] + 1 if v is not None else 1)

    def version(self, t, names):
        """t, marked if something it depends on changed since it was last read."""
        names = frozenset(n for n in names if n is not None)
        if not names:
            return t
        now = tuple(
            sorted(
                ((n, self.env[("w", n)][2]) for n in names if ("w", n) in self.env),
                key=repr,
            )
        )
        k = ("rv", t)
        old = self.env.get(k)
        n = 0
        if old is not None:
            n = old[1] if old[2] == now else old[1] + 1
        self.env[k] = ("rv", n, now)
        for _ in range(n):
            t = ("post", t)
        return t

    def now(self, v):
        """The current contents of a local memory cell."""
        return self.version(v, (v,)) if v[0] == "loc" else v

    def call_reads(self, ft):
        cls = self.cls.name if self.cls is not None else None
        eff = self.effects()
        h = ft[0]
        if h == "attr":
            if ft[1][0] in ("self", "cls"):
                return eff.reads("self", ft[2], cls)
            r = strip_post(ft[1])
            ts = eff.attr_types.get(r[2], ()) if r[0] == "attr" else ()
            if r[0] == "call" and r[1][0] == "g" and r[1][1].split(".")[-1] in self.prog.classes:
                ts = (r[1][1].split(".")[-1],)
            return eff.reads("typed", ft[2], cls, frozenset(ts))
        if h == "super":
            return eff.reads("super", ft[1], cls)
        if h == "smeth":
            return eff.reads("self", ft[1], cls)
        if h == "g":
            return eff.reads("fn", ft[1].split(".")[-1], cls)
        return frozenset()

    def emit_call(self, ft, args, kw):
        self.note_protected(T.mkcall(ft, args, kw))
        g = self.full_guard()
        self.seq += 1
        # `xs.extend(ys)` is one append per element
        if ft[0] == "attr" and ft[2] in ("extend", "update", "extendleft") and len(args) == 1 and not kw:
            a = args[0]
            base = {"extend": "append", "extendleft": "appendleft"}.get(ft[2])
            known_set = False
            if base is None and self.looks_set(ft[1], a):
                base = "add"
            if base is not None and a[0] != "case":
                if a[0] == "tuple" and not any(x[0] == "star" for x in a[1:]):
                    for x in a[1:]:
                        self.emit("do", T.mkcall(("attr", ft[1], base), (x,)))
                    return
                if a[0] == "coll" and a[1] in ("seq", "set") and len(a[2]) != 1 and all(
                    c[0] in ("append", "add") for c in a[2]
                ):
                    for op, ar, guard, doms in a[2]:
                        ds, g2, a2 = self.open_contrib(ar, guard, doms)
                        self.push(ds, g2)
                        self.emit("do", T.mkcall(("attr", ft[1], base), (a2[0],)))
                        self.pop(len(ds))
                    return
                doms, g2, elem = self.iter_spec(a)
                self.push(doms, g2)
                self.emit("do", T.mkcall(("attr", ft[1], base), (elem,)))
                self.pop(len(doms))
                return
        payloads = self._split(tuple(args), g)
        for c0, xs in payloads:
            for c, p in lift_cases((T.mkcall(ft, xs, kw),), c0):
                self.facts.append(
                    Fact("do", p, self.ctx(), c, self.seq, self.line, self.scope)
                )

    def looks_set(self, recv, a):
        if recv[0] == "attr":
            return recv[2] in self.prog.set_attrs()
        return False

    def note_protected(self, t):
        if self.protected:
            kinds = self.protected[-1]
            if t[0] == "call":
                for k in kinds:
                    self.seq += 1
                    self.facts.append(
                        Fact("protected", (k, t[1]), (), TRUE, self.seq, self.line, self.scope)
                    )

    def track_len(self, recv, name, args):
        k = ("len", recv)
        cur = self.env.get(k)
        if name == "append" and len(self.frames) == 0:
            n = cur[2] if cur is not None else 0
            if cur is None and self.is_mutated(recv):
                return
            self.env[k] = const(n + 1)
        else:
            self.env.pop(k, None)
            self.env[("v", recv)] = T.CTRUE

    def effects(self):
        e = getattr(self.prog, "_effects", None)
        if e is None:
            e = self.prog._effects = effects.Effects(self.prog)
        return e

    def forget_calls(self, ft):
        """A call may change attributes: forget what was known about them."""
        cls = self.cls.name if self.cls is not None else None
        eff = self.effects()
        h = ft[0]
        if h == "attr":
            if ft[1][0] in ("self", "cls"):
                w = eff.of_call("self", ft[2], cls)
            else:
                r = strip_post(ft[1])
                ts = eff.attr_types.get(r[2], ()) if r[0] == "attr" else ()
                w = eff.of_call("typed", ft[2], cls, frozenset(ts))
        elif h == "super":
            w = eff.of_call("super", ft[1], cls)
        elif h == "smeth":
            w = eff.of_call("self", ft[1], cls)
        elif h == "g":
            w = eff.of_call("fn", ft[1].split(".")[-1], cls)
        else:
            return
        self.forget_attrs(*w)

    def forget_attrs(self, reb, mut):
        if not reb and not mut:
            return
        both = reb | mut
        self.changed(both)
        for k in [k for k in self.env if isinstance(k, tuple)]:
            if k[0] == "m":
                t = k[1]
                while t[0] in ("sub", "post"):
                    t = t[1]
                if t[0] == "attr" and t[2] in (reb if k[1][0] == "attr" else both):
                    del self.env[k]
        props = self.effects().props
        for a in both:
            if a not in props:
                self.env[("v", ("attr", ("self",), a))] = T.CTRUE
                self.env.pop(("len", ("attr", ("self",), a)), None)
        self.snapshot(reb, mut)

    def snapshot(self, reb, mut):
        """Locals computed from attributes that change now hold old values."""
        props = self.effects().props
        reb = {a for a in reb if a not in props}
        if not reb and not mut:
            return
        for k, v in list(self.env.items()):
            if isinstance(k, tuple) or v[0] in ("obj", "fn", "old", "self", "cls", "p", "c"):
                continue
            if self.stale(v, reb, mut):
                self.env[k] = ("old", v)

    def stale(self, v, reb, mut):
        if not isinstance(v, tuple) or not v:
            return False
        h = v[0]
        if h in ("old", "c", "p", "g", "self"):
            return False
        if h == "attr":
            if v[2] in reb:
                return True
            f = self.effects().props.get(v[2])
            if f is not None:
                e = prop_expr(f)
                if e is not None:
                    names = {n.attr for n in ast.walk(e) if isinstance(n, ast.Attribute)}
                    if names & reb:
                        return True
                    if names & mut and isinstance(e, (ast.Call, ast.Compare, ast.BinOp)):
                        return True
            return self.stale(v[1], reb, mut)
        if h == "call" and v[1] == ("g", "len") or h in ("lin",):
            return self.has_attr(v, reb | mut)
        if h == "bool":
            return any(self.has_attr(a, reb | mut) for a in T.support(v[1]))
        if h == "case":
            return any(self.stale(x, reb, mut) for _, x in v[1])
        if h == "sub":
            return self.stale(v[1], reb, mut)
        if h == "tuple":
            return any(self.stale(x, reb, mut) for x in v[1:])
        return False

    def has_attr(self, t, names):
        if not isinstance(t, tuple) or not t or t[0] == "old":
            return False
        if t[0] == "attr" and t[2] in names:
            return True
        return any(self.has_attr(x, names) for x in t if isinstance(x, tuple))

    def apply(self, ft, args, kw, stmt):
        if ft[0] == "fn":
            return self.call_fn(ft[1], args, kw)
        if ft[0] == "case":
            out = []
            for c, x in ft[1]:
                save = self.alive
                self.alive = land(save, c)
                if self.full_guard() != FALSE:
                    out.append((c, self.apply(x, args, kw, stmt)))
                self.alive = save
            return mkcase(out)
        if ft[0] == "lam" and not kw:
            pass
        if ft[0] == "g":
            n = ft[1]
            m = getattr(self, "b_" + n.replace(".", "_"), None)
            if m is not None:
                r = m(args, dict(kw), stmt)
                if r is not None:
                    return r
        if ft[0] == "attr" and (
            ft[2] in MUTATORS or ft[2] in ("__getitem__", "__contains__", "get", "union")
        ) and ft[1] != ("super",):
            return self.method2(ft[1], ft[2], args, kw, stmt)
        if ft[0] == "attr" and ft[2] == "from_iterable":
            pass
        return self.generic_call(
            ft, args, kw, stmt, ft[2] if ft[0] == "attr" else ft[1] if ft[0] == "smeth" else None
        )

    # builtins -----------------------------------------------------------

    def b_typing_cast(self, args, kw, stmt):
        return args[1] if len(args) == 2 else None

    b_cast = b_typing_cast

    def b_len(self, args, kw, stmt):
        if len(args) != 1:
            return None
        v = self.val(args[0])

        def f(x):
            x = self.now(x)
            raw = strip_post(x)
            if x[0] == "post":
                n = self.env.get(("len", raw))
                if n is not None:
                    return T.mkadd(T.mkcall(("g", "len"), (raw,)), n)
            if x[0] == "tuple" and not any(y[0] == "star" for y in x[1:]):
                return const(len(x) - 1)
            if x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("values", "keys", "items"):
                if not x[2] and not x[3]:
                    return f(x[1][1])
            if x[0] == "attr" and x[1] == ("self",) and self.cls is not None:
                grp = EQUAL_LEN.get(self.cls.name, ())
                if x[2] in grp and not any(
                    self.is_mutated(("attr", ("self",), y)) or ("len", ("attr", ("self",), y)) in self.env
                    for y in grp
                ):
                    x = ("attr", ("self",), grp[0])
            if (
                x[0] == "coll" and x[1] == "seq" and x[2]
                and all(c[0] == "append" and c[3] and c[2] != TRUE for c in x[2])
            ):
                # how many there are
                return mksum([(c[0], (const(1),), *c[2:]) for c in x[2]])
            return T.mkcall(("g", "len"), (x,))

        return T.distribute(f, (v,))

    def b_bool(self, args, kw, stmt):
        if len(args) == 1:
            return T.mkbool(T.tobdd(self.val(args[0])))

    def b_isinstance(self, args, kw, stmt):
        if len(args) == 2:
            return T.mkbool(T.mkisinst(self.val(args[0]), self.val(args[1])))

    def b_list(self, args, kw, stmt):
        if not args:
            return self.newobj("seq")
        if len(args) == 1:
            return self.copy_of("seq", args[0])

    def copy_of(self, kind, a):
        """A fresh collection with the elements of a."""
        if a[0] == "obj" and self.objs[a[1]].opaque is None:
            o = self.objs[a[1]]
        v = self.val(a)
        o = self.newobj(kind)
        if kind == "seq":
            self.contribute(o[1], "extend", v)
        elif kind == "set":
            self.contribute(o[1], "update", v)
        else:
            self.contribute(o[1], "update", v)
        return o

    def b_deque(self, args, kw, stmt):
        return self.b_collections_deque(args, kw, stmt)

    def b_collections_deque(self, args, kw, stmt):
        if kw:
            return None
        if not args:
            return self.newobj("seq")
        if len(args) == 1:
            return self.copy_of("seq", args[0])

    def b_tuple(self, args, kw, stmt):
        if not args:
            return ("tuple",)
        if len(args) == 1:
            v = self.val(args[0])
            return self.neutral(v)

    def neutral(self, v):
        return v

    def b_iter(self, args, kw, stmt):
        if len(args) == 1:
            return self.val(args[0])

    def b_set(self, args, kw, stmt):
        if not args:
            return self.newobj("set")
        if len(args) == 1:
            return self.copy_of("set", args[0])

    def b_frozenset(self, args, kw, stmt):
        r = self.b_set(args, kw, stmt)
        return self.val(r) if r else None

    def b_dict(self, args, kw, stmt):
        if not args and not kw:
            return self.newobj("dict")
        if len(args) == 1 and not kw:
            a = self.val(args[0])
            if a[0] == "coll" and a[1] == "seq" and len(a[2]) == 1:
                op, ar, g, d = a[2][0]
                if op == "append" and ar[0][0] == "tuple" and len(ar[0]) == 3:
                    o = self.newobj("dict")
                    ds, g2, a2 = self.open_contrib(ar, g, d)
                    self.push(ds, g2)
                    self.contribute(o[1], "setitem", a2[0][1], a2[0][2])
                    self.pop(len(ds))
                    return o
            return self.copy_of("dict", args[0])

    def b_collections_Counter(self, args, kw, stmt):
        if not args and not kw:
            return self.newobj("counter")
        return None

    def b_typing_Counter(self, args, kw, stmt):
        return self.b_collections_Counter(args, kw, stmt)

    def b_collections_defaultdict(self, args, kw, stmt):
        if len(args) == 1 and not kw:
            return self.newobj("ddict", init=self.val(args[0]))

    def b_any(self, args, kw, stmt):
        if len(args) != 1:
            return None
        v = self.val(args[0])
        return T.mkbool(self.exists(v, lambda t: T.tobdd(t)))

    def b_all(self, args, kw, stmt):
        if len(args) != 1:
            return None
        v = self.val(args[0])
        return T.mkbool(lnot(self.exists(v, lambda t: lnot(T.tobdd(t)))))

    def exists(self, v, pred):
        if v[0] == "case":
            return lor(*(land(c, self.exists(x, pred)) for c, x in v[1]))
        if v[0] == "tuple" and not any(x[0] == "star" for x in v[1:]):
            return lor(*(pred(x) for x in v[1:]))
        if v[0] == "coll" and all(c[0] in ("append", "add") for c in v[2]):
            res = FALSE
            for op, args, guard, doms in v[2]:
                ds, g, a2 = self.open_contrib(args, guard, doms)
                c = land(g, pred(a2[0]))
                res = lor(res, close_exists(c, [d for d, _ in ds], [u for _, u in ds]))
            return res
        ds, g, elem = self.iter_spec(v)
        c = land(g, pred(elem))
        return close_exists(c, [d for d, _ in ds], [u for _, u in ds])

    def b_sum(self, args, kw, stmt):
        if not args or kw:
            return None
        v = self.val(args[0])
        init = self.val(args[1]) if len(args) > 1 else const(0)
        if v[0] == "tuple" and not any(x[0] == "star" for x in v[1:]):
            r = init
            for x in v[1:]:
                r = T.mkplus(r, x)
            return r
        if v[0] == "coll" and v[1] in ("seq",) and all(c[0] == "append" for c in v[2]):
            return T.mkplus(init, mksum(v[2]))
        ds, g, elem = self.iter_spec(v)
        a2, g2, d2 = close_terms((elem,), g, [d for d, _ in ds], [u for _, u in ds])
        return T.mkplus(init, mksum([("append", a2, g2, tuple(d2))]))

    def b_map(self, args, kw, stmt):
        if len(args) == 2 and not kw:
            f = args[0]
            ds, g, elem = self.iter_spec(self.val(args[1]))
            o = self.newobj("seq")
            self.push(ds, g)
            r = self.apply(f if f[0] == "fn" else self.val(f), [elem], [], False)
            self.contribute(o[1], "append", self.val(r))
            self.pop(len(ds))
            return self.val(o)

    def b_filter(self, args, kw, stmt, neg=False):
        if len(args) == 2 and not kw:
            f = args[0]
            ds, g, elem = self.iter_spec(self.val(args[1]))
            o = self.newobj("seq")
            self.push(ds, g)
            if f == T.NONE:
                r = elem
            elif f[0] == "attr" and f[2] == "__contains__":
                r = T.mkbool(T.mkin(elem, f[1]))
            else:
                r = self.apply(f if f[0] == "fn" else self.val(f), [elem], [], False)
            b = T.tobdd(self.val(r))
            self.alive = land(self.alive, lnot(b) if neg else b)
            if self.alive != FALSE:
                self.contribute(o[1], "append", elem)
            self.pop(len(ds))
            return self.val(o)

    def b_itertools_filterfalse(self, args, kw, stmt):
        return self.b_filter(args, kw, stmt, neg=True)

    def b_itertools_chain_from_iterable(self, args, kw, stmt):
        if len(args) == 1:
            v = self.val(args[0])
            if v[0] == "tuple" and not any(x[0] == "star" for x in v[1:]):
                return self.b_itertools_chain(list(v[1:]), kw, stmt)
            ds, g, elem = self.iter_spec(v)
            o = self.newobj("seq")
            self.push(ds, g)
            d2, g2, e2 = self.iter_spec(elem)
            self.push(d2, g2)
            self.contribute(o[1], "append", e2)
            self.pop(len(d2))
            self.pop(len(ds))
            return self.val(o)

    def b_itertools_chain(self, args, kw, stmt):
        if args and not any(a[0] == "star" for a in args):
            o = self.newobj("seq")
            for a in args:
                self.contribute(o[1], "extend", self.val(a))
            return self.val(o)
        if len(args) == 1 and args[0][0] == "star":
            return self.b_itertools_chain_from_iterable([args[0][1]], {}, stmt)

    def b_next(self, args, kw, stmt):
        if args and args[0] == ("self",):
            t = T.mkcall(("g", "next"), tuple(self.val(a) for a in args))
            self.note_protected(t)
            self.forget_attrs(
                *self.effects().of_call("self", "__next__", self.cls.name if self.cls else None)
            )
            return t
        if args and not kw:
            v = self.val(args[0])
            if v[0] == "coll" and v[1] == "seq" and len(v[2]) == 1:
                op, ar, g, d = v[2][0]
                if op == "append" and d:
                    names = contrib_names(ar, g, d)
                    val = ("first", tuple(d), g, ar[0]) if any(
                        mentions_id(ar[0], n) for n in names
                    ) else ar[0]
                    if len(args) == 2:
                        ds, g2, a2 = self.open_contrib(ar, g, d)
                        ex = close_exists(g2, [x for x, _ in ds], [u for _, u in ds])
                        return mkcase([(ex, val), (lnot(ex), self.val(args[1]))])
                    ds, g2, a2 = self.open_contrib(ar, g, d)
                    ex = close_exists(g2, [x for x, _ in ds], [u for _, u in ds])
                    if not self.protected:
                        save = self.alive
                        self.alive = land(save, lnot(ex))
                        if self.full_guard() != FALSE:
                            self.raise_term(("g", "StopIteration"))
                        self.alive = land(save, ex)
                    return val
        return None

    def b_sorted(self, args, kw, stmt):
        if len(args) != 1 or set(kw) - {"key", "reverse"}:
            return None
        k = self.val(kw["key"]) if "key" in kw else None
        rev = self.val(kw["reverse"]) if "reverse" in kw else T.CFALSE
        if rev not in (T.CTRUE, T.CFALSE):
            return None
        if k is not None and k[0] == "lam" and len(k) == 3 and k[2][0] == "lin" and k[2][2] and k[2][1] == 0:
            if all(c < 0 for _, c in k[2][2]):
                # descending by f is ascending by -f (sorting is stable both ways)
                k = ("lam", k[1], T.mkscale(k[2], -1))
                rev = T.CFALSE if rev == T.CTRUE else T.CTRUE
        out = {}
        if k is not None:
            out["key"] = k
        if rev == T.CTRUE:
            out["reverse"] = rev
        return T.mkcall(("g", "sorted"), (self.val(args[0]),), tuple(sorted(out.items())))

    def b_min(self, args, kw, stmt):
        return self._minmax("min", args, kw)

    def b_max(self, args, kw, stmt):
        return self._minmax("max", args, kw)

    def _minmax(self, n, args, kw):
        vals = [self.val(a) for a in args]
        if len(vals) > 1 and not kw and not any(v[0] == "star" for v in vals):
            return T.distribute(
                lambda *xs: T.mkcall(("g", n), tuple(sorted(xs, key=T.key))), tuple(vals)
            )
        if len(vals) == 1 and vals[0][0] == "tuple" and not kw and not any(
            v[0] == "star" for v in vals[0][1:]
        ):
            return T.mkcall(("g", n), tuple(sorted(vals[0][1:], key=T.key)))
        return T.mkcall(("g", n), tuple(vals), tuple(sorted((k, self.val(v)) for k, v in kw.items())))

    def b_setattr(self, args, kw, stmt):
        if len(args) == 3 and T.is_const(self.val(args[1])):
            b, n, v = (self.val(a) for a in args)
            self.emit("store", ("attr", b, n[2]), v)
            return T.NONE

    def b_getattr(self, args, kw, stmt):
        if len(args) == 2 and T.is_const(self.val(args[1])):
            return self.attr(self.val(args[0]), self.val(args[1])[2])

    def b_functools_reduce(self, args, kw, stmt):
        if len(args) != 3 or kw:
            return None
        ds, g, elem = self.iter_spec(self.val(args[1]))
        if len(ds) != 1:
            return None
        acc = ("acc", n_accs([elem]))
        fn, init = args[0], self.val(args[2])
        op = {"operator.mul": "Mult", "operator.add": "Add"}.get(fn[1] if fn[0] == "g" else None)
        if op is not None:
            step = self.binop(op, acc, elem)
        elif fn[0] == "fn":
            step = self.val(self.call_fn(fn[1], [acc, elem], []))
        else:
            return None
        (step2,), g2, d2 = close_terms((mkcase([(g, step), (lnot(g), acc)]),), TRUE, [ds[0][0]], [ds[0][1]])
        return ("fold", d2[0], step2, init)


MODULES = {
    "itertools", "functools", "collections", "sympy", "random", "time", "json", "zlib",
    "logging", "math", "os", "enum", "abc", "operator", "copy", "sys", "platform", "gc",
    "pathlib", "tempfile", "webbrowser", "datetime", "importlib", "string", "types",
    "typing", "numbers", "warnings", "logzero", "psutil", "tabulate", "requests", "itertools.chain",
}


def _is_gen(node):
    from .model import _is_gen as g

    return g(node)


def _returns_bool(node, prog=None, func=None):
    r = getattr(node, "returns", None)
    if r is None and prog is not None and func is not None and func.cls is not None:
        # not annotated here: what the method of this name is declared to return
        decl = {
            ast.dump(g.node.returns)
            for g in prog.by_method.get(func.name, ())
            if g.node.returns is not None
        }
        return len(decl) == 1 and "'bool'" in next(iter(decl)) and next(iter(decl)).startswith("Name(")
    return isinstance(r, ast.Name) and r.id == "bool"


def _neutral_deco(d):
    if d in ("property", "staticmethod", "classmethod", "abc.abstractmethod", "abc.abstractproperty"):
        return True
    return d.startswith("css") or d.endswith(".setter") or d.startswith("abc.")


def literal(e):
    """The term of a literal expression, or None."""
    if e is None or isinstance(e, tuple):
        return None
    if isinstance(e, ast.Constant):
        if e.value is Ellipsis:
            return None
        return const(e.value)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = literal(e.operand)
        if v is not None and T.is_int(v):
            return const(-v[2])
        return None
    if isinstance(e, ast.Tuple):
        xs = [literal(x) for x in e.elts]
        if all(x is not None for x in xs):
            return ("tuple",) + tuple(xs)
        # tuple of enumeration members
        xs = [
            ("attr", ("g", x.value.id), x.attr)
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name)
            else literal(x)
            for x in e.elts
        ]
        if xs and all(x is not None for x in xs):
            return ("tuple",) + tuple(xs)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "tuple" and not e.args:
        return ("tuple",)
    return None


_UNALIAS = {}


def _settled(node, d, uses, names):
    """All uses follow d in its suite, with none of the names bound in between."""
    for n in ast.walk(node):
        for field in ("body", "orelse", "finalbody"):
            suite = getattr(n, field, None)
            if isinstance(suite, list) and any(s is d for s in suite):
                i = next(k for k, s in enumerate(suite) if s is d)
                want = {id(u) for u in uses}
                for s in suite[i + 1:]:
                    for x in ast.walk(s):
                        want.discard(id(x))
                        if isinstance(x, ast.Name) and x.id in names and not isinstance(x.ctx, ast.Load):
                            return False
                    if not want:
                        return True
                return False
    return False


def unalias(node):
    """The body of node with `x = d[k]; x.add(v)` read as `d[k].add(v)`.

    Only for locals bound once whose every use is the receiver of a mutating
    method or of an item assignment, and whose defining expression is built
    from names bound once or not at all.
    """
    k = id(node)
    if k in _UNALIAS and _UNALIAS[k][0] is node:
        return _UNALIAS[k][1]
    stores = {}
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            stores[n.id] = stores.get(n.id, 0) + 1
    defs = {}
    for n in ast.walk(node):
        if (
            isinstance(n, ast.Assign)
            and len(n.targets) == 1
            and isinstance(n.targets[0], ast.Name)
            and stores.get(n.targets[0].id) == 1
            and isinstance(n.value, ast.Subscript)
            and all(
                isinstance(x, (ast.Name, ast.Attribute, ast.Subscript, ast.Constant, ast.Load))
                for x in ast.walk(n.value)
            )
        ):
            defs[n.targets[0].id] = n
    params = {a.arg for a in node.args.args}
    for name in list(defs):
        d = defs[name]
        uses = [
            x for x in ast.walk(node)
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load)
        ]
        again = {
            x.id for x in ast.walk(d.value) if isinstance(x, ast.Name) and stores.get(x.id, 0) > 1
        }
        if name in params or (again and not _settled(node, d, uses, again)):
            del defs[name]
            continue
        ok = set()
        for n in ast.walk(node):
            if (
                isinstance(n, ast.Call)
                and isinstance(n.func, ast.Attribute)
                and n.func.attr in MUTATORS
                and isinstance(n.func.value, ast.Name)
            ):
                ok.add(id(n.func.value))
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                if isinstance(n.value, ast.Name):
                    ok.add(id(n.value))
        if not uses or any(id(u) not in ok for u in uses):
            del defs[name]
    if not defs:
        _UNALIAS[k] = (node, node.body)
        return node.body
    drop = {id(d) for d in defs.values()}

    class V(ast.NodeTransformer):
        def visit_Assign(self, n):
            if id(n) in drop:
                return None
            return self.generic_visit(n)

        def visit_Name(self, n):
            if n.id in defs and isinstance(n.ctx, ast.Load):
                return copy.deepcopy(defs[n.id].value)
            return n

    # mark the definitions in a copy
    memo = {}
    new = copy.deepcopy(node, memo)
    drop = {id(memo[id(d)]) for d in defs.values()}
    for name in defs:
        defs[name] = memo[id(defs[name])]
    new = V().visit(new)
    for n in ast.walk(new):
        b = getattr(n, "body", None)
        if isinstance(b, list) and not b:
            b.append(ast.Pass(lineno=node.lineno, col_offset=0))
    ast.fix_missing_locations(new)
    _UNALIAS[k] = (node, new.body)
    return new.body


def find_case(t, d=0):
    """A case distinction in t that is not below a binder."""
    if not isinstance(t, tuple) or not t or d > 30:
        return None
    h = t[0]
    if h == "case":
        for c, x in t[1]:
            for a in T.support(c):
                if has_bound(a):
                    return None
        if len(t[1]) <= 4:
            return t
        return None
    if h in ("coll", "lam", "first", "sumof", "effects", "last", "B"):
        return None
    for x in t:
        if isinstance(x, tuple):
            r = find_case(x, d + 1)
            if r is not None:
                return r
    return None


def strip_docstring(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
        return body[1:]
    return body


def mkcase(branches):
    """A case distinction; [...] if c else [] is one conditional collection."""
    t = T.mkcase(branches)
    if t[0] != "case" or len(t[1]) != 2:
        return t
    arms = list(t[1])
    for i in (0, 1):
        (c, x), (_, y) = arms[i], arms[1 - i]
        empty = y == ("tuple",) or y[0] == "coll" and not y[2] and len(y) == 3
        if (
            empty and x[0] == "coll" and len(x) == 3 and x[1] in ("seq", "set") and x[2]
            and (y == ("tuple",)) == (x[1] == "seq") and all(k[0] in ("append", "add") for k in x[2])
        ):
            contribs = []
            for op, ar, g, dd in x[2]:
                ds, g2, a2 = open_closed(ar, g, dd)
                a3, g3, d3 = close_terms(a2, land(c, g2), [d for d, _ in ds], [u for _, u in ds])
                contribs.append((op, a3, g3, d3))
            return finish_coll(x[1], None, contribs)
    return t


def unlift(t):
    """case{c -> zip(a, x); d -> zip(a, y)} is zip(a, case{c -> x; d -> y})."""
    if t[0] != "case":
        return t
    arms = [x for _, x in t[1]]
    f = arms[0]
    if f[0] != "call" or f[1][0] != "g" or f[1][1] not in ("zip", "enumerate", "reversed", "sorted") or f[3]:
        return t
    if any(x[0] != "call" or x[1] != f[1] or len(x[2]) != len(f[2]) or x[3] for x in arms):
        return t
    if any(a[0] == "star" for x in arms for a in x[2]):
        return t
    return ("call", f[1], tuple(mkcase([(c, x[2][i]) for c, x in t[1]]) for i in range(len(f[2]))), ())


def has_bound(t):
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] in ("at", "pos", "lp", "lv") and any(
        isinstance(x, str) and x[:1] == "h" and x[1:].isdigit() for x in t[1:]
    ):
        return True
    return any(has_bound(x) for x in t if isinstance(x, tuple))


def replace_term(t, old, new):
    def f(x):
        return new if x == old else None

    return T.rebuild(t, f)


def lift_cases(payload, guard, budget=8):
    """Split a fact on the case distinctions inside its payload."""
    c = None
    for p in payload:
        c = find_case(p)
        if c is not None:
            break
    if c is None or budget <= 1:
        return [(guard, payload)]
    out = []
    for cond, x in c[1]:
        g = land(guard, cond)
        if g == FALSE:
            continue
        new = tuple(replace_term(p, c, x) for p in payload)
        new = tuple(assume(p, g) for p in new)
        out.extend(lift_cases(new, g, budget // len(c[1])))
    return out


def assume(t, g):
    """Drop the branches of case distinctions in t that cannot hold under g."""

    def f(x):
        if x[0] == "case":
            br = [(c, y) for c, y in x[1] if land(g, c) != FALSE]
            if len(br) == 1:
                return assume(br[0][1], g)
        return None

    return T.rebuild(t, f)


def prop_expr(f):
    """The expression of a property that only returns one."""
    body = [b for b in f.node.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
    if len(body) == 1 and isinstance(body[0], ast.Return):
        return body[0].value
    return None


TAIL = ("slice", const(1), T.NONE, T.NONE)
INIT = ("slice", T.NONE, const(-1), T.NONE)
BACKWARDS = ("slice", T.NONE, T.NONE, const(-1))


def passes_on(h):
    """A handler that only raises again what it caught."""
    return (
        len(h.body) == 1
        and isinstance(h.body[0], ast.Raise)
        and h.body[0].cause is None
        and (
            h.body[0].exc is None
            or isinstance(h.body[0].exc, ast.Name) and h.body[0].exc.id == h.name
        )
    )


def literal_items(e):
    return (
        isinstance(e, (ast.Tuple, ast.List))
        and 0 < len(e.elts) <= 5
        and not any(isinstance(x, ast.Starred) for x in e.elts)
    )


def jumps(stmts):
    """Is there a break or continue of the loop with this body?"""
    for s in stmts:
        if isinstance(s, (ast.Break, ast.Continue)):
            return True
        if isinstance(s, (ast.For, ast.While)):
            if jumps(s.orelse):
                return True
            continue
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            if jumps(getattr(s, f, []) or []):
                return True
        for h in getattr(s, "handlers", []):
            if jumps(h.body):
                return True
    return False


def strip_view(t):
    """What is iterated: keys() and neutral wrappers dropped in every branch."""
    if t[0] == "case":
        return mkcase((c, strip_view(x)) for c, x in t[1])
    if t[0] == "call" and not t[3]:
        f = t[1]
        if f[0] == "attr" and f[2] == "keys" and not t[2]:
            return strip_view(f[1])
        if f[0] == "g" and f[1] in NEUTRAL_WRAP and len(t[2]) == 1:
            return strip_view(t[2][0])
    return t


def iterator_like(func):
    f = getattr(func, "iterator_like", None)
    if f is None:
        r = func.node.returns
        f = r is not None and ast.unparse(r).startswith(("Iterator", "Generator", "typing.Iterator"))
    return f


def slice_store(s):
    """xs[:] = [f(x) for x in xs] as a loop over the positions of xs."""
    if len(s.targets) != 1 or not isinstance(s.targets[0], ast.Subscript):
        return None
    t, v = s.targets[0], s.value
    sl = t.slice
    if not (isinstance(sl, ast.Slice) and sl.lower is sl.upper is sl.step is None):
        return None
    if not (isinstance(v, ast.ListComp) and len(v.generators) == 1):
        return None
    g = v.generators[0]
    if g.ifs or ast.unparse(g.iter) != ast.unparse(t.value):
        return None
    i = ast.Name(id="_slice_pos", ctx=ast.Store())
    body = ast.Assign(
        targets=[ast.Subscript(value=t.value, slice=ast.Name(id="_slice_pos", ctx=ast.Load()), ctx=ast.Store())],
        value=v.elt,
    )
    return ast.fix_missing_locations(
        ast.copy_location(
            ast.For(
                target=ast.Tuple(elts=[i, g.target], ctx=ast.Store()),
                iter=ast.Call(func=ast.Name(id="enumerate", ctx=ast.Load()), args=[g.iter], keywords=[]),
                body=[body],
                orelse=[],
            ),
            s,
        )
    )


def strip_post(t):
    if t[0] == "post":
        return strip_post(t[1])
    if t[0] in ("attr", "sub") and t[1][0] in ("post", "attr", "sub"):
        return (t[0], strip_post(t[1])) + t[2:]
    return t


def range_dom(n):
    if n[0] == "call" and n[1] == ("g", "len"):
        return n[2][0]
    return ("range", n)


def rename(t, m):
    """Rename loop ids."""
    if not m:
        return t

    memo = rename.memo
    mk = tuple(sorted(m.items(), key=repr))
    k = (t, mk)
    if k in memo:
        return memo[k]

    def f(x):
        h = x[0]
        if h == "at" and x[2] in m:
            return T.mkat(rename(x[1], m), m[x[2]])
        if h == "pos" and x[1] in m:
            return ("pos", m[x[1]])
        if h == "lv" and x[1] in m:
            return ("lv", m[x[1]], x[2])
        if h == "lp" and x[1] in m:
            return ("lp", m[x[1]], x[2])
        return None

    ids = set(m)
    if not any_id(t, ids):
        r = t
    else:
        r = T.rebuild(t, f)
    memo[k] = r
    return r


rename.memo = {}


def any_id(t, ids):
    if not isinstance(t, tuple):
        return False
    if t and t[0] in T.IDPOS and len(t) > T.IDPOS[t[0]] and not isinstance(t[T.IDPOS[t[0]]], tuple) and t[T.IDPOS[t[0]]] in ids:
        return True
    return any(any_id(x, ids) for x in t if isinstance(x, tuple))


def has_head(t, h):
    return isinstance(t, tuple) and bool(t) and (t[0] == h or any(has_head(x, h) for x in t))


def mentions_id(t, i):
    return any_id(t, {i})


_MEN = {}


def mentions(t, sub):
    if t == sub:
        return True
    if not isinstance(t, tuple):
        return False
    k = (t, sub)
    r = _MEN.get(k)
    if r is None:
        r = any(mentions(x, sub) for x in t if isinstance(x, tuple))
        _MEN[k] = r
    return r


def height(t):
    """Largest canonical bound id in t."""
    h = 0
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple) or x in seen:
            continue
        seen.add(x)
        if x and x[0] in T.IDPOS and len(x) > T.IDPOS[x[0]]:
            i = x[T.IDPOS[x[0]]]
            if isinstance(i, str) and i[:1] == "h" and i[1:].isdigit():
                h = max(h, int(i[1:]))
        stack.extend(y for y in x if isinstance(y, tuple))
    return h


def close_terms(args, guard, doms, uids):
    """Bind the loops `uids` over `doms` in args/guard with canonical names."""
    if not uids:
        return tuple(args), guard, ()
    h = max([height(a) for a in args] + [height(guard)] + [height(d) for d in doms])
    k = len(uids)
    m = {u: f"h{h + k - j}" for j, u in enumerate(uids)}
    newdoms = []
    for j, d in enumerate(doms):
        newdoms.append(rename(d, {u: m[u] for u in uids[:j]}))
    return tuple(rename(a, m) for a in args), rename(guard, m), tuple(newdoms)


def contrib_names(args, guard, doms):
    """The names close_terms gave to the loops of a contribution."""
    k = len(doms)
    # outermost has the largest number
    tops = max([height(a) for a in args] + [height(guard)] + [height(d) for d in doms] + [0])
    used = tops
    # the loops have consecutive numbers ending at some base + k; an unused
    # outermost variable does not occur, so find the base by the body height
    names = getattr(contrib_names, "cache", {}).get((args, guard, doms))
    if names:
        return names
    return [f"h{used - j}" for j in range(k)]


contrib_names.cache = {}

_close_terms = close_terms


def close_terms(args, guard, doms, uids):  # noqa: F811
    a, g, d = _close_terms(args, guard, doms, uids)
    if uids:
        h = max([height(x) for x in args] + [height(guard)] + [height(x) for x in doms])
        k = len(uids)
        contrib_names.cache[(a, g, d)] = [f"h{h + k - j}" for j in range(k)]
    return a, g, d


_opened = [0]


def open_closed(args, guard, doms):
    """open_contrib outside an evaluation."""
    m = {}
    ds = []
    for n, d in zip(contrib_names(args, guard, doms), doms):
        _opened[0] += 1
        d2 = rename(d, m)
        m[n] = f"E{_opened[0]}"
        ds.append((d2, m[n]))
    return ds, rename(guard, m), tuple(rename(a, m) for a in args)


def close_exists(cond, doms, uids):
    """exists x1 in doms1, ...: cond"""
    c = cond
    for d, u in reversed(list(zip(doms, uids))):
        if c == FALSE:
            return FALSE
        # conditions that do not depend on the loop move out
        if not mentions_id(c, u):
            c = land(T.mkexists(d, TRUE), c)
            continue
        # split disjunctions of independent conditions: exists distributes
        if d[0] == "tuple" and len(d) <= 5 and not any(x[0] == "star" for x in d[1:]):
            # over a handful of given things: one of them
            c = lor(*(
                T.rebuild(c, lambda t, x=x, i=i: x if t == ("at", d, u) else const(i) if t == ("pos", u) else None)
                for i, x in enumerate(d[1:])
            ))
            continue
        if d[0] == "coll" and d[1] in ("seq", "set") and len(d[2]) <= 4 and all(
            x[0] in ("append", "add") for x in d[2]
        ) and not mentions(c, ("pos", u)):
            alts = []
            for op, ar, g, dd in d[2]:
                ds, g2, a2 = open_closed(ar, g, dd)
                c2 = T.rebuild(c, lambda t: a2[0] if t == ("at", d, u) else None)
                if mentions_id(c2, u):
                    break
                alts.append(close_exists(land(g2, c2), [x for x, _ in ds], [x for _, x in ds]))
            else:
                c = lor(*alts)
                continue
        h = max(height(c), height(d))
        name = f"h{h + 1}"
        indep = [a for a in T.support(c) if not mentions_id(a, u)]
        c = _exists_shannon(c, indep, d, u, name)
    return c


def _exists_shannon(c, indep, d, u, name):
    if c == FALSE:
        return FALSE
    for a in sorted(indep, key=T.key):
        c1 = T.cofactor(c, a, True)
        c0 = T.cofactor(c, a, False)
        if c1 == c0:
            continue
        rest = [x for x in indep if x != a]
        return T.ite(
            T.var(a),
            _exists_shannon(c1, rest, d, u, name),
            _exists_shannon(c0, rest, d, u, name),
        )
    if not mentions_id(c, u):
        return land(T.mkexists(d, TRUE), c)
    c2 = rename(c, {u: name})
    # exists over an indexed domain does not need the domain's own name
    return T.mkexists(d, c2)


def has_lv(ts, but):
    """A loop carried variable other than `but`, or a place in memory."""
    def f(t):
        if not isinstance(t, tuple) or not t:
            return False
        if t[0] in ("lv", "loc", "post", "res") and t != but:
            return True
        return any(f(x) for x in t if isinstance(x, tuple))

    return any(f(t) for t in ts)


def n_accs(ts):
    def f(t):
        if not isinstance(t, tuple) or not t:
            return 0
        m = t[1] + 1 if t[0] == "acc" else 0
        return max([m] + [f(x) for x in t if isinstance(x, tuple)])

    return max(f(t) for t in ts)


def is_incr(x, lv):
    if x[0] != "lin":
        return False
    p = dict(x[2])
    if p.get(lv) != 1:
        return False
    return not any(mentions(t, lv) for t in p if t != lv)


def mksum(contribs):
    # the sum of truth values counts
    contribs = [
        (c[0], (const(1),), land(c[2], c[1][0][1]), *c[3:])
        if len(c[1]) == 1 and isinstance(c[1][0], tuple) and c[1][0][:1] == ("bool",) else c
        for c in contribs
    ]
    contribs = tuple(sorted(contribs, key=T.key))
    if not contribs:
        return const(0)
    return ("sumof", contribs)


ORDERED = {"seq"}


def disjoint(a, b):
    """Can contributions a and b not both happen (in the same iteration)?"""
    ga, gb = a[2], b[2]
    na, nb = contrib_names(*a[1:]), contrib_names(*b[1:])
    ma, mb = {}, {}
    for i, (da, db) in enumerate(zip(a[3], b[3])):
        if rename(da, ma) != rename(db, mb):
            break
        ma[na[i]] = f"H{i}"
        mb[nb[i]] = f"H{i}"
    if ma:
        ga, gb = rename(ga, ma), rename(gb, mb)
    fa, fb = [x for x in na if x not in ma], [x for x in nb if x not in mb]
    return land(bound_free(ga, fa), bound_free(gb, fb)) == FALSE


def bound_free(g, bound):
    """What g implies about atoms without the bound names."""
    for t in sorted(T.support(g), key=T.key):
        if any(mentions_id(t, x) for x in bound):
            g = lor(T.cofactor(g, t, True), T.cofactor(g, t, False))
    return g


def sort_disjoint(contribs):
    cs = list(contribs)
    for _ in range(len(cs)):
        moved = False
        for i in range(len(cs) - 1):
            if T.key(cs[i + 1]) < T.key(cs[i]) and disjoint(cs[i], cs[i + 1]):
                cs[i], cs[i + 1] = cs[i + 1], cs[i]
                moved = True
        if not moved:
            break
    return cs


def overwrite(contribs):
    """[a for _ in xs] with item k replaced by v:  [v if i == k else a for i, _ in xs]."""
    while (
        len(contribs) >= 2
        and contribs[0][0] == "append"
        and contribs[0][2] == TRUE
        and len(contribs[0][3]) == 1
        and contribs[1][0] == "setitem"
        and not contribs[1][3]
        and not contribs[1][1][0][0] == "slice"
    ):
        _, args, guard, doms = contribs[0]
        k, v = contribs[1][1]
        u = "new"
        elem = rename(args[0], {contrib_names(args, guard, doms)[0]: u})
        c = land(contribs[1][2], T.mkeq(("pos", u), k))
        elem = mkcase([(c, v), (lnot(c), elem)])
        a, g, d = close_terms((elem,), TRUE, doms, [u])
        contribs = [("append", a, g, d)] + list(contribs[2:])
    return contribs


def finish_coll(kind, init, contribs):
    contribs = [tuple(c) for c in contribs if c[2] != FALSE]
    if 1 < len(contribs) <= 6:
        contribs = sort_disjoint(contribs)
    if kind == "seq" and init is None:
        contribs = overwrite(contribs)
    if kind == "seq":
        if init is None and all(
            c[0] == "append" and c[2] == TRUE and not c[3] for c in contribs
        ):
            return ("tuple",) + tuple(c[1][0] for c in contribs)
        if len(contribs) == 1 and init is None:
            op, args, guard, doms = contribs[0]
            # [x for x in xs] is xs
            if (
                op == "append"
                and guard == TRUE
                and len(doms) == 1
                and args[0][0] == "at"
                and args[0][1] == doms[0]
                and isinstance(args[0][2], str)
                and args[0][2].startswith("h")
                and contrib_names(args, guard, doms)[0] == args[0][2]
            ):
                return doms[0]
            if op == "extend" and guard == TRUE and not doms:
                return args[0]
    elif kind in ("set", "counter"):
        ops = {c[0] for c in contribs}
        if len(ops) <= 1 and ops <= {"add", "incr"}:
            merged = {}
            for c in contribs:
                if c[0] == "add":
                    k = (c[0], c[1], c[3])
                    merged[k] = lor(merged.get(k, FALSE), c[2])
            if ops == {"add"}:
                contribs = [(k[0], k[1], g, k[2]) for k, g in merged.items()]
            contribs = sorted(contribs, key=T.key)
    elif kind == "dict":
        plain = [c[0] == "setitem" and T.is_const(c[1][0]) for c in contribs]
        if any(plain):
            # a key given again: the last one counts
            out = []
            for i, c in enumerate(contribs):
                if plain[i] and any(
                    plain[j] and x[1][0] == c[1][0] and x[2] == TRUE and not x[3]
                    for j, x in enumerate(contribs) if j > i
                ):
                    continue
                out.append(c)
            contribs = out
        if len({c[0] for c in contribs}) == 1 and contribs[0][0] == "setitem":
            keys = [c[1][0] for c in contribs]
            if len(set(keys)) == len(keys) and all(T.is_const(k) for k in keys):
                contribs = sorted(contribs, key=T.key)
    if kind == "ddict":
        return ("coll", kind, tuple(contribs), init)
    return ("coll", kind, tuple(contribs))


def mkstar(items):
    """(a, *xs, b) as a concatenation."""
    r = ("tuple",)
    for x in items:
        if x[0] == "star":
            y = x[1] if T.seqlike(x[1]) else ("seqof", x[1])
            r = T.mkplus(r, x[1]) if T.seqlike(x[1]) or r != ("tuple",) else ("concat", x[1])
        else:
            r = T.mkplus(r, ("tuple", x))
    return r


# ----------------------------------------------------------------- printing


def show(t, depth=0):
    if not isinstance(t, tuple):
        return repr(t)
    if not t:
        return "()"
    h = t[0]
    if T.is_bdd(t):
        return "{" + showb(t) + "}"
    if h == "c":
        return repr(t[2])
    if h == "p":
        return f"${t[1]}"
    if h == "g":
        return str(t[1])
    if h == "self":
        return "self"
    if h == "attr":
        return f"{show(t[1])}.{t[2]}"
    if h == "sub":
        return f"{show(t[1])}[{show(t[2])}]"
    if h == "call":
        a = [show(x) for x in t[2]] + [f"{k}={show(v)}" for k, v in t[3]]
        return f"{show(t[1])}({', '.join(a)})"
    if h == "tuple":
        return "(" + ", ".join(show(x) for x in t[1:]) + ")"
    if h == "lin":
        return "(" + " + ".join([f"{k}*{show(x)}" for x, k in t[2]] + [str(t[1])]) + ")"
    if h == "at":
        return f"{show(t[1])}<{t[2]}>"
    if h == "pos":
        return f"#{t[1]}"
    if h == "case":
        return "case{" + "; ".join(f"{showb(c)} -> {show(x)}" for c, x in t[1]) + "}"
    if h == "coll":
        return f"{t[1]}[" + "; ".join(
            f"{op}({', '.join(show(a) for a in args)})"
            + (f" if {showb(g)}" if g != TRUE else "")
            + "".join(f" for {show(d)}" for d in doms)
            for op, args, g, doms in t[2]
        ) + "]"
    if isinstance(h, str):
        return h + "(" + ", ".join(show(x) for x in t[1:]) + ")"
    return "(" + ", ".join(show(x) for x in t) + ")"


def showb(b):
    if b == TRUE:
        return "T"
    if b == FALSE:
        return "F"
    ps = T.paths(b, limit=8)
    return " | ".join(
        " & ".join(("" if v else "!") + show(a) for a, v in p) or "T" for p in ps[:8]
    )


def analyse(prog, func, inline=frozenset(), boolret=None):
    ev = Eval(prog, func, inline, _returns_bool(func.node, prog, func) if boolret is None else boolret)
    return ev.run()
