"""Canonical terms and path conditions.

A term is a nested tuple whose first item is the head.  Path conditions are
reduced ordered decision diagrams over atoms (terms), so that conditions which
are logically equal over the same atoms are structurally equal.
"""

import sys

sys.setrecursionlimit(20000)

TRUE = ("B1",)
FALSE = ("B0",)

_KEY = {}


def key(t):
    """A total order on terms that does not depend on creation order."""
    k = _KEY.get(t)
    if k is None:
        if isinstance(t, tuple):
            k = "(" + " ".join(key(x) for x in t) + ")"
        else:
            k = repr(t)
        if len(k) > 400:
            import hashlib

            k = k[:300] + hashlib.sha1(k.encode()).hexdigest()
        _KEY[t] = k
    return k


def size(t):
    if isinstance(t, tuple):
        return 1 + sum(size(x) for x in t[1:])
    return 1


# --------------------------------------------------------------------- BDD

_ITE = {}
MAXBDD = 400


class TooBig(Exception):
    """The condition or value is too large to be normalised."""


def _mk(v, lo, hi):
    return lo if lo == hi else ("B", v, lo, hi)


def is_bdd(t):
    return isinstance(t, tuple) and bool(t) and t[0] in ("B", "B0", "B1")


def var(atom):
    return ("B", atom, FALSE, TRUE)


def _top(*fs):
    best = None
    bk = None
    for f in fs:
        if f[0] == "B":
            k = key(f[1])
            if best is None or k < bk:
                best, bk = f[1], k
    return best


def _cof(f, v):
    if f[0] == "B" and f[1] == v:
        return f[2], f[3]
    return f, f


def ite(f, g, h):
    if f == TRUE:
        return g
    if f == FALSE:
        return h
    if g == h:
        return g
    if g == TRUE and h == FALSE:
        return f
    k = (f, g, h)
    r = _ITE.get(k)
    if r is not None:
        return r
    v = _top(f, g, h)
    f0, f1 = _cof(f, v)
    g0, g1 = _cof(g, v)
    h0, h1 = _cof(h, v)
    r = _mk(v, ite(f0, g0, h0), ite(f1, g1, h1))
    _ITE[k] = r
    return r


def land(*fs):
    r = TRUE
    for f in fs:
        r = ite(r, f, FALSE)
        r = theory(r)
    return r


def lor(*fs):
    r = FALSE
    for f in fs:
        r = ite(r, TRUE, f)
    return r


def lnot(f):
    return ite(f, FALSE, TRUE)


_MINI = {}


def restrict(f, c):
    """Simplify f under the assumption c: depends on f & c and c only."""
    if c in (TRUE, FALSE) or f in (TRUE, FALSE):
        return f
    k = (f, c)
    r = _MINI.get(k)
    if r is not None:
        return r
    sup = support(f) | support(c)
    if len(sup) > 14:
        r = restrict_quick(f, c)
    else:
        lo, hi = land(f, c), lor(f, lnot(c))
        for v in sorted(sup, key=lambda t: (t[0] != "exc", key(t))):
            lo2 = lor(*_cof(lo, v)) if v == _topv(lo) else lor(cofactor(lo, v, False), cofactor(lo, v, True))
            hi2 = land(cofactor(hi, v, False), cofactor(hi, v, True))
            if land(lo2, lnot(hi2)) == FALSE:
                lo, hi = lo2, hi2
        r = lo
    _MINI[k] = r
    return r


def _topv(f):
    return f[1] if f[0] == "B" else None


def restrict_quick(f, c):
    """Simplify f under the assumption c (generalised cofactor)."""
    if c == FALSE or f in (TRUE, FALSE):
        return f
    if c == TRUE:
        return f
    v = _top(f, c)
    c0, c1 = _cof(c, v)
    f0, f1 = _cof(f, v)
    if c0 == FALSE:
        return restrict_quick(f1, c1)
    if c1 == FALSE:
        return restrict_quick(f0, c0)
    if f0 == f1:
        # v is not in f
        return restrict_quick(f, lor(c0, c1))
    return _mk(v, restrict_quick(f0, c0), restrict_quick(f1, c1))


def support(f, acc=None):
    if acc is None:
        acc = set()
    if f[0] == "B":
        acc.add(f[1])
        support(f[2], acc)
        support(f[3], acc)
    return acc


def cofactor(f, v, val):
    if f[0] != "B":
        return f
    if f[1] == v:
        return f[3] if val else f[2]
    lo, hi = cofactor(f[2], v, val), cofactor(f[3], v, val)
    return ite(var(f[1]), hi, lo)


def _contradict(pos, neg):
    """Simple theory conflicts between atoms that are true/false on a path."""
    eqs = {}
    for a in pos:
        if a[0] == "eq":
            x, y = a[1], a[2]
            for u, w in ((x, y), (y, x)):
                if w[0] == "c":
                    if u in eqs and eqs[u] != w:
                        return True
                    eqs[u] = w
    return False


def theory(f):
    """Remove paths that need one term to equal two different constants."""
    atoms = [a for a in support(f) if a[0] == "eq" and (a[1][0] == "c" or a[2][0] == "c")]
    if len(atoms) < 2:
        return f

    def rec(g, pos):
        if g[0] != "B":
            return g
        lo = rec(g[2], pos)
        a = g[1]
        if a[0] == "eq":
            np = pos + (a,)
            hi = FALSE if _contradict(np, ()) else rec(g[3], np)
        else:
            hi = rec(g[3], pos)
        return _mk(a, lo, hi)

    return rec(f, ())


def bdd_size(f):
    seen = set()

    def rec(g):
        if g in seen or g[0] != "B":
            return
        seen.add(g)
        rec(g[2])
        rec(g[3])

    rec(f)
    return len(seen)


def paths(f, acc=(), limit=64):
    """All (atom, polarity) paths to TRUE."""
    out = []

    def rec(g, p):
        if len(out) > limit:
            return
        if g == TRUE:
            out.append(p)
        elif g[0] == "B":
            rec(g[2], p + ((g[1], False),))
            rec(g[3], p + ((g[1], True),))

    rec(f, acc)
    return out


# ------------------------------------------------------------- constructors

NONE = ("c", "NoneType", None)


def const(v):
    return ("c", type(v).__name__, v)


CTRUE, CFALSE = const(True), const(False)


def is_const(t):
    return isinstance(t, tuple) and t and t[0] == "c"


def is_int(t):
    return is_const(t) and t[1] == "int"


def mkbool(b):
    if b == TRUE:
        return CTRUE
    if b == FALSE:
        return CFALSE
    return ("bool", b)


def mkcase(branches):
    """branches: iterable of (cond, term), conditions disjoint."""
    acc = {}
    for c, t in branches:
        if c == FALSE:
            continue
        if t[0] == "case":
            for c2, t2 in t[1]:
                cc = land(c, c2)
                if cc != FALSE:
                    acc[t2] = lor(acc.get(t2, FALSE), cc)
        else:
            acc[t] = lor(acc.get(t, FALSE), c)
    if not acc:
        return ("undef",)
    if len(acc) == 1:
        return next(iter(acc))
    # all boolean leaves: a boolean
    if all(t in (CTRUE, CFALSE) or t[0] == "bool" for t in acc):
        total = lor(*acc.values())
        b = lor(*(land(c, tobdd(t)) for t, c in acc.items()))
        if total == TRUE:
            return mkbool(b)
    acc = _drop_redundant(acc)
    if len(acc) == 1:
        return next(iter(acc))
    return ("case", tuple(sorted(((c, t) for t, c in acc.items()), key=key)))


def _drop_redundant(acc):
    """`[] if not xs else [f(x) for x in xs]` is `[f(x) for x in xs]`."""
    empties = [
        t
        for t in acc
        if (t[0] == "coll" and not t[2])
        or t in (CFALSE,) and False
        or (t[0] == "tuple" and len(t) == 1)
    ]
    for e in empties:
        doms = empty_when(acc[e])
        if not doms:
            continue
        for t in list(acc):
            if t is not e and t[0] == "coll" and t[2]:
                if all(any(d in doms for d in contrib[3]) for contrib in t[2]):
                    if e[0] == "tuple" or e[1] == t[1]:
                        acc[t] = lor(acc[t], acc[e])
                        del acc[e]
                        break
    return acc


def empty_when(cond):
    """Collections that are empty whenever cond holds."""
    out = set()
    for a in support(cond):
        if a[0] == "truth" and cofactor(cond, a, True) == FALSE:
            out.add(a[1])
    return out


def tobdd(t):
    """Truth value of a term as a condition."""
    h = t[0]
    if h == "bool":
        return t[1]
    if h == "c":
        return TRUE if t[2] else FALSE
    if h == "case":
        return lor(*(land(c, tobdd(x)) for c, x in t[1]))
    if h == "tuple":
        return TRUE if len(t) > 1 else FALSE
    if h == "lin":
        return lnot(mkeq(t, const(0)))
    if h == "coll":
        if not t[2]:
            return FALSE
        # non empty iff one contribution is made
        conds = []
        for op, args, guard, doms in t[2]:
            if op not in ("append", "add", "setitem"):
                break
            if not doms:
                conds.append(guard)
            else:
                c = guard
                for d in reversed(doms):
                    c = mkexists(d, c)
                conds.append(c)
        else:
            return lor(*conds)
        return var(("truth", t))
    if h == "lam":
        return TRUE
    if h == "call" and len(t[2]) == 1 and not t[3]:
        if t[1] == ("g", "len") or t[1] == ("g", "bool"):
            return tobdd(t[2][0])
    return var(("truth", t))


def _isbound(t, dom):
    return False


def mkexists(dom, cond):
    """exists an element of dom (bound variable already canonical) with cond."""
    if cond == FALSE:
        return FALSE
    if cond == TRUE:
        if dom[0] == "range":
            return mklt(const(0), dom[1])
        if dom[0] == "while":
            return TRUE
        return tobdd(dom)
    return var(("exists", dom, cond))


# linear arithmetic


def lin_parts(t):
    """(const, {term: coef})"""
    if is_int(t):
        return t[2], {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def mklin(c, parts):
    parts = {t: k for t, k in parts.items() if k != 0}
    if not parts:
        return const(c)
    if c == 0 and len(parts) == 1:
        (t, k), = parts.items()
        if k == 1:
            return t
    return ("lin", c, tuple(sorted(parts.items(), key=lambda p: key(p[0]))))


def mkadd(a, b, sb=1):
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    parts = dict(pa)
    for t, k in pb.items():
        parts[t] = parts.get(t, 0) + sb * k
    return mklin(ca + sb * cb, parts)


def mkscale(a, k):
    c, p = lin_parts(a)
    return mklin(c * k, {t: v * k for t, v in p.items()})


SEQ_HEADS = ("tuple", "coll", "fstr")


def seqlike(t):
    if t[0] in SEQ_HEADS or (t[0] == "c" and t[1] in ("str", "bytes")):
        return True
    if t[0] == "sub" and t[2][0] == "slice":
        return True
    if t[0] == "concat":
        return True
    if t[0] == "call" and t[1][0] == "g" and t[1][1] in (
        "tuple",
        "list",
        "sorted",
        "str",
        "repr",
        "map",
        "dict",
    ):
        return True
    return False


def mkplus(a, b):
    if seqlike(a) or seqlike(b):
        xs = a[1:] if a[0] == "concat" else (a,)
        ys = b[1:] if b[0] == "concat" else (b,)
        items = []
        for x in xs + ys:
            if items and items[-1][0] == "tuple" and x[0] == "tuple":
                items[-1] = items[-1] + x[1:]
            elif x == ("tuple",):
                continue
            else:
                items.append(x)
        if not items:
            return ("tuple",)
        if len(items) == 1:
            return items[0]
        return ("concat",) + tuple(items)
    return mkadd(a, b)


def mkmul(a, b):
    if is_int(a) and not seqlike(b):
        return mkscale(b, a[2])
    if is_int(b) and not seqlike(a):
        return mkscale(a, b[2])
    if seqlike(a) or seqlike(b):
        return ("bin", "*", a, b)
    fa = a[1:] if a[0] == "mul" else (a,)
    fb = b[1:] if b[0] == "mul" else (b,)
    return ("mul",) + tuple(sorted(fa + fb, key=key))


def mklt(a, b):
    """condition a < b"""
    if a[0] == "case" or b[0] == "case":
        return dist_cond(mklt, a, b)
    if (a[0] in ("lin", "pos") or is_int(a) or b[0] in ("lin", "pos") or is_int(b)) or not (
        seqlike(a) or seqlike(b)
    ):
        d = mkadd(a, b, -1)  # d < 0
        if is_int(d):
            return TRUE if d[2] < 0 else FALSE
        if is_const(d):
            return var(("lt", a, b))
        c, p = lin_parts(d)
        first = min(p, key=key)
        if p[first] < 0:
            # d < 0  <=>  not (-d - 1 < 0)
            nd = mkscale(d, -1)
            nd = mkadd(nd, const(-1))
            return lnot(_lt0(nd))
        return _lt0(d)
    return var(("lt", a, b))


def _lt0(d):
    c, p = lin_parts(d)
    # len(x) < 1  <=>  not x
    if len(p) == 1:
        (t, k), = p.items()
        if t[0] == "call" and t[1] == ("g", "len") and k == 1:
            if c == -1:
                return lnot(tobdd(t[2][0]))
            if c == 0:
                return FALSE
        if t[0] == "pos" and k == 1:
            if c == 0:
                return FALSE
            if c == -1:
                return var(("eq", const(0), t))
        if k == 1 and c in (0, -1) and counts(t):
            return FALSE if c == 0 else lnot(counted(t))
    return var(("lt0", d if d[0] == "lin" else ("lin", c, tuple(p.items()))))


def counts(t):
    """A sum of ones: the number of elements that satisfy a condition."""
    return t[0] == "sumof" and all(len(c) == 4 and c[0] == "append" and c[1] == (const(1),) for c in t[1])


def counted(t):
    """At least one is counted."""
    res = FALSE
    for _, _, cond, doms in t[1]:
        for d in reversed(doms):
            cond = mkexists(d, cond)
        res = lor(res, cond)
    return res


def dist_cond(f, a, b):
    ca = a[1] if a[0] == "case" else ((TRUE, a),)
    cb = b[1] if b[0] == "case" else ((TRUE, b),)
    out = FALSE
    for c1, x in ca:
        for c2, y in cb:
            c = land(c1, c2)
            if c != FALSE:
                out = lor(out, land(c, f(x, y)))
    return out


EMPTIES = (
    ("tuple",),
    ("coll", "seq", ()),
    ("coll", "set", ()),
    ("coll", "dict", ()),
    ("c", "str", ""),
)


def mkeq(a, b):
    if a[0] == "case" or b[0] == "case":
        return dist_cond(mkeq, a, b)
    if a == b:
        return TRUE
    if is_const(a) and is_const(b):
        return TRUE if a[2] == b[2] else FALSE
    for x, y in ((a, b), (b, a)):
        if x in EMPTIES:
            return lnot(tobdd(y))
        if x == NONE:
            return mkis(x, y)
        if x in (CTRUE, CFALSE):
            if y[0] == "bool":
                return y[1] if x == CTRUE else lnot(y[1])
        if x == const(0) and y[0] == "call" and y[1] == ("g", "len"):
            return lnot(tobdd(y[2][0]))
        if x == const(0) and counts(y):
            return lnot(counted(y))
    if a[0] == "bool" and b[0] == "bool":
        return ite(a[1], b[1], lnot(b[1]))
    if a[0] == "lin" or b[0] == "lin":
        d = mkadd(a, b, -1)
        if is_int(d):
            return TRUE if d[2] == 0 else FALSE
        c, p = lin_parts(d)
        if p[min(p, key=key)] < 0:
            d = mkscale(d, -1)
        # keep the constant on one side
        c, p = lin_parts(d)
        a, b = mklin(0, p), const(-c)
    if a[0] == "tuple" and b[0] == "tuple":
        if len(a) != len(b):
            return FALSE
        return land(*(mkeq(x, y) for x, y in zip(a[1:], b[1:])))
    if key(b) < key(a):
        a, b = b, a
    return var(("eq", a, b))


NOT_NONE = ("tuple", "coll", "lin", "bool", "lam", "concat", "fstr", "pos", "mul", "obj")


NOT_NONE_VALUES = set()  # attributes whose items are never None (by annotation)


def mkis(a, b):
    if a[0] == "case" or b[0] == "case":
        return dist_cond(mkis, a, b)
    if a == b:
        return TRUE
    if is_const(a) and is_const(b):
        return TRUE if a[2] is b[2] else FALSE
    for x, y in ((a, b), (b, a)):
        if x == NONE and (y[0] in NOT_NONE or y[0] == "first" and y[3][0] in NOT_NONE):
            return FALSE
        if x == NONE and y[0] == "sub" and y[1][0] == "attr" and y[1][2] in NOT_NONE_VALUES:
            return FALSE
        if x in (CTRUE, CFALSE):
            return tobdd(y) if x == CTRUE else lnot(tobdd(y))
    if key(b) < key(a):
        a, b = b, a
    return var(("is", a, b))


def mkin(a, b):
    if a[0] == "case" or (b[0] == "case"):
        return dist_cond(mkin, a, b)
    if b[0] == "tuple":
        return lor(*(mkeq(a, x) for x in b[1:]))
    if b[0] == "coll" and not b[2]:
        return FALSE
    if b[0] == "coll" and all(c[0] in ("append", "add") and not c[3] for c in b[2]):
        return lor(*(land(c[2], mkeq(a, c[1][0])) for c in b[2]))
    if b[0] == "call" and b[1][0] == "attr" and b[1][2] == "keys" and not b[2]:
        b = b[1][1]
    return var(("in", a, b))


def mkisinst(x, t):
    if x[0] == "case":
        return lor(*(land(c, mkisinst(y, t)) for c, y in x[1]))
    if t[0] == "tuple":
        return lor(*(mkisinst(x, y) for y in t[1:]))
    return var(("isinst", x, t))


def distribute(f, args, limit=12):
    """Apply f below the case distinctions of its arguments."""
    n = 1
    for a in args:
        if a[0] == "case":
            n *= len(a[1])
    if n == 1 or n > limit:
        return f(*args)
    combos = [(TRUE, ())]
    for a in args:
        opts = a[1] if a[0] == "case" else ((TRUE, a),)
        new = []
        for c, pre in combos:
            for c2, x in opts:
                cc = land(c, c2)
                if cc != FALSE:
                    new.append((cc, pre + (x,)))
        combos = new
    return mkcase((c, f(*xs)) for c, xs in combos)


def mksub(base, idx):
    if idx[0] == "pos":
        return mkat(base, idx[1])
    if base[0] == "tuple" and is_int(idx):
        items = base[1:]
        if -len(items) <= idx[2] < len(items) and not any(x[0] == "star" for x in items):
            return items[idx[2]]
    if base[0] == "coll" and base[1] == "seq" and is_int(idx) and idx[2] >= 0:
        if all(c[0] == "append" and not c[3] and c[2] == TRUE for c in base[2]):
            if idx[2] < len(base[2]):
                return base[2][idx[2]][1][0]
    if idx[0] == "lin":
        # xs[len(xs) - 1] is xs[-1]
        c, p = lin_parts(idx)
        if len(p) == 1 and c < 0:
            (t, k), = p.items()
            if k == 1 and t == mkcall(("g", "len"), (base,)):
                return ("sub", base, const(c))
    return ("sub", base, idx)


def mkat(dom, uid):
    """element number `pos(uid)` of dom"""
    if dom[0] == "coll" and dom[1] == "seq" and len(dom[2]) == 1:
        op, args, guard, doms = dom[2][0]
    return ("at", dom, uid)


def mkcall(f, args, kwargs=()):
    if f == ("g", "getattr") and len(args) == 2 and args[1][0] == "c" and args[1][1] == "str":
        return mkattr(args[0], args[1][2])
    return ("call", f, tuple(args), tuple(kwargs))


def mkattr(b, n):
    return ("attr", b, n)


def walk(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)


_CONT = {}
IDPOS = {"at": 2, "pos": 1, "lv": 1, "lp": 1}


def contains(t, pred_heads_ids):
    """does t mention loop id (int) pred"""
    k = (t, pred_heads_ids)
    r = _CONT.get(k)
    if r is None:
        r = False
        if isinstance(t, tuple):
            if t and t[0] in IDPOS and t[IDPOS[t[0]]] == pred_heads_ids:
                r = True
            else:
                r = any(contains(x, pred_heads_ids) for x in t if isinstance(x, tuple))
        _CONT[k] = r
    return r


def rebuild(t, f):
    """Apply f to the (rebuilt) sub terms bottom up, with smart constructors."""
    memo = {}

    def rec(x):
        if not isinstance(x, tuple):
            return x
        if x in memo:
            return memo[x]
        r = _rec(x)
        memo[x] = r
        return r

    def _rec(x):
        if not x:
            return x
        h = x[0]
        if h in ("B0", "B1", "c"):
            return x
        if h == "B":
            a = rec(x[1])
            c = a if is_bdd(a) else var(a)
            return ite(c, rec(x[3]), rec(x[2]))
        y = f(x)
        if y is not None:
            return y
        if h == "case":
            return mkcase((rec(c), rec(t2)) for c, t2 in x[1])
        if h == "lin":
            r = const(x[1])
            for t2, k in x[2]:
                r = mkadd(r, mkscale(rec(t2), k))
            return r
        if h == "mul":
            r = None
            for t2 in x[1:]:
                y = rec(t2)
                r = y if r is None else mkmul(r, y)
            return r
        if h == "bool":
            return mkbool(rec(x[1]))
        if h == "truth":
            return tobdd(rec(x[1]))
        if h == "eq":
            return mkeq(rec(x[1]), rec(x[2]))
        if h == "is":
            return mkis(rec(x[1]), rec(x[2]))
        if h == "in":
            return mkin(rec(x[1]), rec(x[2]))
        if h == "lt0":
            return mklt(rec(x[1]), const(0))
        if h == "isinst":
            return mkisinst(rec(x[1]), rec(x[2]))
        if h == "exists":
            return mkexists(rec(x[1]), rec(x[2]))
        if h == "sub":
            return mksub(rec(x[1]), rec(x[2]))
        if h == "call" and x[1] == ("g", "getattr") and not x[3]:
            return mkcall(x[1], tuple(rec(z) for z in x[2]))
        if h == "concat":
            r = None
            for t2 in x[1:]:
                y = rec(t2)
                r = y if r is None else mkplus(r, y)
            return r
        if isinstance(h, str):
            return (h,) + tuple(rec(z) if isinstance(z, tuple) else z for z in x[1:])
        return tuple(rec(z) if isinstance(z, tuple) else z for z in x)

    return rec(t)


def walk_has(t, frames):
    return any(contains(t, f.uid) for f in frames)
