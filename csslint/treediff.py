"""Minimal edits between two behaviour summaries.

The edits say which sub term, condition atom or effect differs, so that a
report names the construct and so that a rewritten function (many unrelated
differences) is told apart from a changed one (few, local differences).
"""

from . import terms as T

MAXSEQ = 14


class Edit:
    __slots__ = ("kind", "old", "new", "cost")

    def __init__(self, kind, old, new, cost):
        self.kind = kind
        self.old = old
        self.new = new
        self.cost = cost

    def key(self):
        return (self.kind, self.old, self.new)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return f"{self.kind}[{self.cost}]: {show(self.old)} => {show(self.new)}"


def show(t):
    from .flow import show as s

    if t is None:
        return "-"
    try:
        r = s(t) if isinstance(t, tuple) and t and isinstance(t[0], str) else repr(t)
    except Exception:
        r = repr(t)
    return r if len(r) < 400 else r[:400] + "..."


_SIZE = {}


def size(t):
    if not isinstance(t, tuple):
        return 1
    r = _SIZE.get(t)
    if r is None:
        if T.is_bdd(t):
            r = sum(size(a) for a in T.support(t)) + 1
        elif t and t[0] == "c":
            r = 1
        elif t and t[0] in ("p", "g", "self", "loc", "pos", "lv", "lp"):
            r = 1
        elif t and t[0] == "attr":
            r = size(t[1]) + 1
        elif t and t[0] == "at":
            r = size(t[1]) + 1
        else:
            r = 1 + sum(size(x) for x in (t[1:] if t and isinstance(t[0], str) else t))
        _SIZE[t] = r
    return r


def isbinder(x):
    return isinstance(x, str) and len(x) > 1 and x[0] in "hLH" and x[1:].isdigit()


class Differ:
    def __init__(self):
        self.memo = {}

    # -- result: (cost, frozenset of edits)
    def diff(self, a, b):
        if a == b:
            return 0, frozenset()
        k = (a, b)
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = (size(a) + size(b), frozenset([self.repl(a, b)]))
            r = self._diff(a, b)
            self.memo[k] = r
        return r

    def repl(self, a, b):
        return Edit("replace", a, b, size(a) + size(b))

    def _diff(self, a, b):
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            if isbinder(a) and isbinder(b):
                return 0, frozenset()
            e = Edit("leaf", a, b, 2)
            return 2, frozenset([e])
        if T.is_bdd(a) and T.is_bdd(b):
            return self.cond(a, b)
        if not a or not b or T.is_bdd(a) or T.is_bdd(b):
            e = self.repl(a, b)
            return e.cost, frozenset([e])
        best = None
        ha, hb = a[0], b[0]
        if ha == "c" and hb == "c":
            e = Edit("const", a, b, 2)
            return 2, frozenset([e])
        if ha == hb and isinstance(ha, str):
            if ha == "lin":
                best = self.lin(a, b)
            elif ha == "coll":
                if a[1] != b[1]:
                    best = self.seq(a[2], b[2])
                    best = (best[0] + 2, best[1] | {Edit("leaf", a[1], b[1], 2)})
                else:
                    best = self.seq(a[2], b[2], ordered=a[1] not in ("set", "counter"))
                    if a[3:] != b[3:]:
                        x = self.diff(a[3:], b[3:])
                        best = (best[0] + x[0], best[1] | x[1])
            elif ha == "case":
                best = self.case(a, b)
            elif ha == "bool":
                best = self.diff(a[1], b[1])
            elif ha in ("mul", "concat", "tuple") and len(a) != len(b):
                best = self.seq(a[1:], b[1:])
            elif ha == "eq" or ha == "is":
                x = self.pair(a, b)
                y = self.pair(a, (hb, b[2], b[1]) + b[3:])
                best = min(x, y, key=lambda r: r[0])
            elif ha == "sumof":
                best = self.seq(a[1], b[1], ordered=False)
            elif len(a) == len(b):
                best = self.pair(a, b)
                # exchanged arguments
                if ha == "call" and a[1] == b[1] and sorted(a[2], key=T.key) == sorted(b[2], key=T.key):
                    e = Edit("swap", a, b, 3)
                    if best[0] > 3:
                        best = (3, frozenset([e]))
        elif isinstance(ha, str) and isinstance(hb, str) and ha.startswith("item") and hb.startswith("item"):
            # another way of adding to the same collection
            if len(a) == len(b):
                best = self.pair(a, b)
                best = (best[0] + 2, best[1] | {Edit("leaf", ha, hb, 2)})
        elif not isinstance(ha, str) and not isinstance(hb, str):
            best = self.seq(a, b)
        elif ha == "lin" or hb == "lin":
            best = self.lin(T.mkadd(a, T.const(0)) if ha == "lin" else ("lin", 0, ((a, 1),)),
                            b if hb == "lin" else ("lin", 0, ((b, 1),)) if b[0] != "c" else None) \
                if (ha == "lin" or a[0] != "c") else None
        elif ha == "case" and hb != "case":
            best = self.casewrap(a, b)
        elif hb == "case" and ha != "case":
            best = self.casewrap(b, a)
        elif ha == "bool" and hb == "c":
            best = self.diff(a[1], T.TRUE if b[2] is True else T.FALSE) if isinstance(b[2], bool) else None
        elif hb == "bool" and ha == "c":
            best = self.diff(T.TRUE if a[2] is True else T.FALSE, b[1]) if isinstance(a[2], bool) else None
        e = self.repl(a, b)
        if best is None or best[0] > e.cost:
            best = (e.cost, frozenset([e]))
        w = self.wrap(a, b)
        if w is not None and w[0] < best[0]:
            best = w
        return best

    def pair(self, a, b):
        cost, ed = 0, frozenset()
        for x, y in zip(a[1:], b[1:]):
            c, e = self.diff(x, y)
            cost += c
            ed |= e
        return cost, ed

    def wrap(self, a, b):
        """b is a with something small around it, or the converse."""
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            return None
        for x, y, kind in ((a, b, "wrapped"), (b, a, "unwrapped")):
            if size(y) - size(x) > 8 or size(y) <= size(x) or size(x) < 1 or x[0] == "c":
                continue
            if contains(y, x):
                c = size(y) - size(x) + 1
                return c, frozenset([Edit(kind, a, b, c)])
        return None

    def lin(self, a, b):
        if a is None or b is None:
            return None
        cost, ed = 0, frozenset()
        if a[1] != b[1]:
            cost += 2
            ed |= {Edit("offset", T.const(a[1]), T.const(b[1]), 2)}
        da, db = dict(a[2]), dict(b[2])
        oa = [t for t in da if t not in db]
        ob = [t for t in db if t not in da]
        for t in da:
            if t in db and da[t] != db[t]:
                cost += 2
                ed |= {Edit("coefficient", (t, da[t]), (t, db[t]), 2)}
        pairs, oa, ob = self.match(oa, ob)
        for x, y, (c, e) in pairs:
            cost += c
            ed |= e
            if da[x] != db[y]:
                cost += 2
                ed |= {Edit("coefficient", (x, da[x]), (y, db[y]), 2)}
        for x in oa:
            cost += size(x) + 1
            ed |= {Edit("term dropped", x, None, size(x) + 1)}
        for x in ob:
            cost += size(x) + 1
            ed |= {Edit("term added", None, x, size(x) + 1)}
        return cost, ed

    def match(self, xs, ys, ratio=0.6):
        """Pair similar items; (pairs, left xs, left ys)."""
        cands = []
        for i, x in enumerate(xs):
            for j, y in enumerate(ys):
                r = self.diff(x, y)
                s = size(x) + size(y)
                if r[0] <= max(3, ratio * s) and not (
                    r[0] >= s and len(r[1]) == 1 and next(iter(r[1])).kind == "replace" and s > 8
                ):
                    cands.append((r[0] / s, abs(i - j), T.key(x) if isinstance(x, tuple) else str(x), i, j, r))
        cands.sort(key=lambda c: c[:5])
        ui, uj, out = set(), set(), []
        for _, _, _, i, j, r in cands:
            if i in ui or j in uj:
                continue
            ui.add(i)
            uj.add(j)
            out.append((xs[i], ys[j], r))
        return (
            out,
            [x for i, x in enumerate(xs) if i not in ui],
            [y for j, y in enumerate(ys) if j not in uj],
        )

    def seq(self, a, b, ordered=True):
        if len(a) == len(b) and ordered:
            cost, ed = 0, frozenset()
            for x, y in zip(a, b):
                c, e = self.diff(x, y)
                cost += c
                ed |= e
            if len(a) > 1 and sorted(a, key=T.key) == sorted(b, key=T.key):
                if cost > 3:
                    return 3, frozenset([Edit("order", a, b, 3)])
            if len(a) <= 1:
                return cost, ed
            best = (cost, ed)
        else:
            best = None
        if not ordered:
            oa = [x for x in a if x not in b]
            ob = [x for x in b if x not in a]
            pairs, oa, ob = self.match(oa, ob, 0.9)
            cost, ed = 0, frozenset()
            for x, y, (c, e) in pairs:
                cost += c
                ed |= e
            for x in oa:
                cost += size(x) + 1
                ed |= {Edit("item dropped", x, None, size(x) + 1)}
            for x in ob:
                cost += size(x) + 1
                ed |= {Edit("item added", None, x, size(x) + 1)}
            r = (cost, ed)
            return r
        if len(a) > MAXSEQ or len(b) > MAXSEQ:
            return best
        n, m = len(a), len(b)
        D = [[None] * (m + 1) for _ in range(n + 1)]
        D[0][0] = (0, frozenset())
        for i in range(n + 1):
            for j in range(m + 1):
                if i == j == 0:
                    continue
                opts = []
                if i and j:
                    c, e = self.diff(a[i - 1], b[j - 1])
                    p = D[i - 1][j - 1]
                    opts.append((p[0] + c, p[1], e))
                if i:
                    c = size(a[i - 1]) + 1
                    p = D[i - 1][j]
                    opts.append((p[0] + c, p[1], frozenset([Edit("item dropped", a[i - 1], None, c)])))
                if j:
                    c = size(b[j - 1]) + 1
                    p = D[i][j - 1]
                    opts.append((p[0] + c, p[1], frozenset([Edit("item added", None, b[j - 1], c)])))
                o = min(opts, key=lambda o: o[0])
                D[i][j] = (o[0], o[1] | o[2])
        if best is None or D[n][m][0] < best[0]:
            best = D[n][m]
        return best

    # ---------------------------------------------------------------- cases
    def case(self, a, b):
        xa, xb = list(a[1]), list(b[1])
        # same values, other conditions
        cost, ed = 0, frozenset()
        va = {v: c for c, v in xa}
        vb = {v: c for c, v in xb}
        oa = [v for v in va if v not in vb]
        ob = [v for v in vb if v not in va]
        pairs, oa2, ob2 = self.match(oa, ob, 0.9)
        m = {x: y for x, y, _ in pairs}
        for x, y, (c, e) in pairs:
            cost += c
            ed |= e
        for v in va:
            w = v if v in vb else m.get(v)
            if w is not None and va[v] != vb[w]:
                c, e = self.cond(va[v], vb[w])
                new = {x for x in e if x not in ed}
                cost += sum(x.cost for x in new)
                ed |= new
        for v in oa2:
            cost += size(v) + 2
            ed |= {Edit("case dropped", v, None, size(v) + 2)}
        for v in ob2:
            cost += size(v) + 2
            ed |= {Edit("case added", None, v, size(v) + 2)}
        return cost, ed

    def casewrap(self, cs, x):
        best = None
        for c, v in cs[1]:
            r = self.diff(v, x)
            rest = [w for d, w in cs[1] if w != v]
            extra = sum(size(w) for w in rest) + min(size(c), 20)
            e = frozenset([Edit("case", tuple(rest), None, extra)])
            t = (r[0] + extra, r[1] | e)
            if best is None or t[0] < best[0]:
                best = t
        return best

    # ----------------------------------------------------------- conditions
    def cond(self, a, b):
        if a == b:
            return 0, frozenset()
        if a in (T.TRUE, T.FALSE) or b in (T.TRUE, T.FALSE):
            x = b if a in (T.TRUE, T.FALSE) else a
            atoms = T.support(x)
            if len(atoms) == 1:
                t = next(iter(atoms))
                kind = "condition added" if a in (T.TRUE, T.FALSE) else "condition dropped"
                e = Edit(kind, t, None, size(t) + 1)
                return e.cost, frozenset([e])
            c = size(x) + 1
            ab = (a, b) if T.key(a) + T.key(b) < T.key(T.lnot(a)) + T.key(T.lnot(b)) else (T.lnot(a), T.lnot(b))
            return c, frozenset([Edit("condition", ab[0], ab[1], c)])
        sa, sb = T.support(a), T.support(b)
        oa = sorted(sa - sb, key=T.key)
        ob = sorted(sb - sa, key=T.key)
        pairs, oa, ob = self.match(oa, ob)
        cost, ed = 0, frozenset()
        b2 = b
        for x, y, (c, e) in pairs:
            b2 = compose(b2, y, T.var(x))
            cost += c
            ed |= e
        if not oa and not ob:
            if a == b2:
                return cost, ed
            l = logic(a, b2)
            return cost + l.cost, ed | {l}
        # dropped / added literals
        if len(oa) + len(ob) <= 5:
            lits = [(t, True) for t in oa] + [(t, False) for t in ob]
            for mask in range(1 << len(lits)):
                a3, b3 = a, b2
                for i, (t, isa) in enumerate(lits):
                    v = bool(mask >> i & 1)
                    if isa:
                        a3 = T.cofactor(a3, t, v)
                    else:
                        b3 = T.cofactor(b3, t, v)
                if a3 == b3 and a3 not in (T.TRUE, T.FALSE):
                    for t, isa in lits:
                        e = Edit(
                            "condition dropped" if isa else "condition added", t, None, size(t) + 1
                        )
                        cost += e.cost
                        ed |= {e}
                    return cost, ed
        if not pairs and len(sa) == 1 and len(sb) == 1:
            x, y = next(iter(sa)), next(iter(sb))
            c, e = self.diff(x, y)
            c += 0 if (a == T.var(x)) == (b == T.var(y)) else 1
            return c, e
        c = size(a) + size(b)
        l = Edit("condition", a, b, c)
        if T.key(T.lnot(a)) + T.key(T.lnot(b)) < T.key(a) + T.key(b):
            l = Edit("condition", T.lnot(a), T.lnot(b), c)
        return cost + l.cost, ed | {l}


def compose(f, atom, g):
    return T.ite(g, T.cofactor(f, atom, True), T.cofactor(f, atom, False))


def logic(a, b):
    na, nb = T.lnot(a), T.lnot(b)
    if T.key(na) + T.key(nb) < T.key(a) + T.key(b):
        a, b = na, nb
    return Edit("logic", a, b, 4)


_HAS = {}


def contains(y, x):
    if y == x:
        return True
    if not isinstance(y, tuple):
        return False
    k = (y, x)
    r = _HAS.get(k)
    if r is None:
        r = any(contains(z, x) for z in y)
        _HAS[k] = r
    return r


class Delta:
    """The difference between two normalised summaries."""

    def __init__(self):
        self.edits = set()
        self.removed = []
        self.added = []
        self.guards = []
        self.matched = 0

    def cost(self):
        return sum(e.cost for e in self.edits)


def delta(rt, ct):
    """rt, ct: ident -> guard."""
    d = Delta()
    df = Differ()
    ro = [k for k in rt if k not in ct]
    co = [k for k in ct if k not in rt]
    for k in rt:
        if k in ct and rt[k] != ct[k]:
            c, e = df.cond(rt[k], ct[k])
            d.edits |= e
            d.guards.append((k, e))
    # match facts of the same kind
    cands = []
    for i, x in enumerate(ro):
        for j, y in enumerate(co):
            if x[0] != y[0]:
                continue
            c1, e1 = df.diff(x[1:], y[1:])
            c2, e2 = df.cond(rt[x], ct[y])
            s = size(x[1:]) + size(y[1:])
            if c1 > max(4, 0.7 * s):
                continue
            cands.append(((c1 + c2) / (s + 1), i, j, e1 | e2))
    cands.sort(key=lambda c: (c[0], c[1], c[2]))
    ui, uj = set(), set()
    for _, i, j, e in cands:
        if i in ui or j in uj:
            continue
        ui.add(i)
        uj.add(j)
        d.edits |= e
        d.matched += 1
    d.removed = [x for i, x in enumerate(ro) if i not in ui]
    d.added = [y for j, y in enumerate(co) if j not in uj]
    return d
