"""Comparison of the behaviour facts of a function with the confirmed ones."""

from . import flow
from . import terms as T

NEUTRAL_KINDS = {"assert"}

PURE_CALLS = {
    "len", "isinstance", "bool", "str", "repr", "id", "type", "int", "float", "range",
    "hasattr", "getattr", "callable", "hash", "sorted", "list", "tuple", "set", "dict",
    "frozenset", "min", "max", "sum", "any", "all", "zip", "enumerate", "abs", "iter",
}


def pure_do(t):
    return t[0] == "call" and t[1][0] == "g" and t[1][1] in PURE_CALLS


def locs_in(t, acc):
    if isinstance(t, tuple) and t:
        if t[0] == "loc":
            acc.add(t[1])
            return acc
        if t[0] == "lv":
            acc.add(t[2])
            return acc
        for x in t:
            if isinstance(x, tuple):
                locs_in(x, acc)
    return acc


class Norm:
    """Normalised facts of one function: ident -> guard."""

    def __init__(self, facts, keep_asserts=False):
        fs = []
        self.asserts = [f for f in facts if f.kind == "assert"]
        self.protected = [f for f in facts if f.kind == "protected"]
        for f in facts:
            if f.kind == "assert" and not keep_asserts:
                continue
            if f.kind == "protected":
                continue
            if f.kind == "do" and pure_do(f.payload[0]):
                continue
            if f.kind == "return" and not f.ctx and not f.scope and f.payload == (T.NONE,):
                continue
            fs.append(f)
        fs = drop_dead(untouched(added(fs)))
        self.facts = fs
        self.table = {}
        self.fact_of = {}
        for f in fs:
            k = f.ident()
            if k in self.table:
                self.table[k] = T.lor(self.table[k], f.guard)
            else:
                self.table[k] = f.guard
                self.fact_of[k] = f
        self.locs = set()
        for k in self.table:
            locs_in(k, self.locs)
            locs_in(self.table[k], self.locs)

    def renamed(self, m):
        out = {}
        for k, g in self.table.items():
            k2 = relabel(k, m)
            g2 = relabel(g, m)
            out[k2] = T.lor(out[k2], g2) if k2 in out else g2
        return out


def untouched(fs):
    """Cells read where nothing has been done to them yet read as their initial value."""
    cells = {}
    for f in fs:
        if f.kind == "assign" and f.payload[0][0] == "loc":
            n = f.payload[0][1]
            cells[n] = None if n in cells or f.ctx or f.scope or f.payload[1][0] != "coll" else f
    cells = {n: f for n, f in cells.items() if f is not None}
    if not cells:
        return fs
    users = {n: [] for n in cells}
    for f in fs:
        acc = set()
        locs_in(f.payload, acc)
        locs_in(f.guard, acc)
        locs_in(f.ctx, acc)
        for n in acc & set(cells):
            if f is not cells[n]:
                users[n].append(f)
    swap = {}
    for n, us in users.items():
        for f in us:
            if f.kind != "return" or f.ctx or f.scope or passed(f.payload, n):
                continue
            if all(g is f or T.land(g.guard, f.guard) == T.FALSE for g in us):
                swap.setdefault(id(f), {})[("loc", n)] = cells[n].payload[1]
    if not swap:
        return fs
    out = []
    for f in fs:
        m = swap.get(id(f))
        if m is not None:
            f = flow.Fact(f.kind, T.rebuild(f.payload, m.get), f.ctx, f.guard, f.seq, f.line, f.scope)
        out.append(f)
    return out


SHRINK = {"remove", "discard", "pop", "clear", "difference_update", "intersection_update"}


def added(fs):
    """Adding to a set what may be there already: asking first makes no difference."""
    out = []
    shrunk = None
    for f in fs:
        t = f.payload[0] if f.payload else (None,)
        if (
            f.kind == "do" and t[0] == "call" and t[1][0] == "attr" and t[1][2] == "add"
            and len(t[2]) == 1 and not t[3]
        ):
            recv = flow.strip_post(t[1][1])
            for a in T.support(f.guard):
                if a[0] == "in" and a[1] == t[2][0] and flow.strip_post(a[2]) == recv:
                    if shrunk is None:
                        shrunk = {
                            flow.strip_post(x.payload[0][1][1])
                            for x in fs
                            if x.kind == "do" and x.payload[0][0] == "call" and x.payload[0][1][0] == "attr"
                            and x.payload[0][1][2] in SHRINK
                        }
                    if recv not in shrunk:
                        g = T.cofactor(f.guard, a, False)
                        f = flow.Fact(f.kind, f.payload, f.ctx, g, f.seq, f.line, f.scope)
        out.append(f)
    return out


def passed(t, n):
    """Is cell n handed to, or the receiver of, a call?"""
    if not isinstance(t, tuple):
        return False
    if t and t[0] == "call" and count_loc(t, n):
        return True
    return any(passed(x, n) for x in t)


def drop_dead(fs):
    """Drop assignments to loop carried locals that nobody reads."""
    while True:
        live = set()
        for f in fs:
            if f.kind == "assign":
                tgt = f.payload[0]
                acc = set()
                for x in f.payload[1:]:
                    locs_in(x, acc)
                locs_in(f.guard, acc)
                locs_in(f.ctx, acc)
                if tgt[0] == "loc":
                    acc.discard(tgt[1])
                live |= acc
            elif f.kind in ("store", "del", "do") and local_root(f.payload[0]) is not None:
                # mutation of a local cell
                root = local_root(f.payload[0])
                acc = set()
                locs_in(f.payload, acc)
                locs_in(f.guard, acc)
                locs_in(f.ctx, acc)
                # the cell itself is not thereby read
                if count_loc(f.payload, root) + count_loc(f.ctx, root) + count_loc(f.guard, root) <= 1:
                    acc.discard(root)
                live |= acc
            else:
                locs_in(f.payload, live)
                locs_in(f.guard, live)
                locs_in(f.ctx, live)
        out = [
            f
            for f in fs
            if not (
                f.kind == "assign" and f.payload[0][0] == "loc" and f.payload[0][1] not in live
            )
            and not (
                f.kind in ("store", "del", "do")
                and local_root(f.payload[0]) is not None
                and local_root(f.payload[0]) not in live
                and f.kind != "do"
            )
        ]
        if len(out) == len(fs):
            return out
        fs = out


def count_loc(t, n):
    if isinstance(t, tuple):
        if t == ("loc", n):
            return 1
        return sum(count_loc(x, n) for x in t if isinstance(x, tuple))
    return 0


def local_root(t):
    if t[0] == "call":
        t = t[1]
        if t[0] != "attr":
            return None
        t = t[1]
    while t[0] in ("sub", "attr", "post"):
        t = t[1]
    return t[1] if t[0] == "loc" else None


def relabel(t, m):
    """Rename loc / nested names."""
    if not isinstance(t, tuple):
        return t

    def f(x):
        if x[0] == "loc" and x[1] in m:
            return ("loc", m[x[1]])
        if x[0] == "lv" and x[2] in m:
            return ("lv", x[1], m[x[2]])
        if x[0] == "nested" and x[1] in m:
            return ("nested", m[x[1]])
        if x[0] == "np" and x[1] in m:
            return ("np", m[x[1]], x[2])
        return None

    return T.rebuild(t, f)


def erase(t, m):
    def f(x):
        if x[0] in ("loc", "nested"):
            return (x[0], m.get(x[1], "?"))
        if x[0] == "lv":
            return ("lv", x[1], m.get(x[2], "?"))
        if x[0] == "np":
            return ("np", m.get(x[1], "?"), x[2])
        return None

    return T.rebuild(t, f) if isinstance(t, tuple) else t


def loc_signatures(n, rounds=2):
    sig = {x: "?" for x in n.locs}
    for _ in range(rounds):
        new = {}
        for x in n.locs:
            m = dict(sig)
            m[x] = "!"
            items = []
            for k, g in n.table.items():
                if mentions_name(k, x) or mentions_name(g, x):
                    items.append(T.key((erase(k, m), erase(g, m))))
            new[x] = T.key(tuple(("s", i) for i in sorted(items)))
        import hashlib

        sig = {x: hashlib.sha1(v.encode()).hexdigest()[:8] for x, v in new.items()}
    return sig


def mentions_name(t, x):
    if isinstance(t, tuple) and t:
        if t[0] in ("loc", "nested", "np") and len(t) > 1 and t[1] == x:
            return True
        if t[0] == "lv" and t[2] == x:
            return True
        return any(mentions_name(y, x) for y in t if isinstance(y, tuple))
    return False


def equal_tables(a, b):
    if a.keys() != b.keys():
        return False
    return all(a[k] == b[k] for k in a)


def align_locs(r, c):
    """A renaming of the locals of c to those of r."""
    if not r.locs and not c.locs:
        return {}
    sr, sc = loc_signatures(r), loc_signatures(c)
    m = {}
    free = set(r.locs)
    for x in sorted(c.locs):
        cands = [y for y in sorted(free) if sr[y] == sc[x]]
        if cands:
            y = x if x in cands else cands[0]
            m[x] = y
            free.discard(y)
    for x in sorted(c.locs):
        if x not in m and x in free:
            m[x] = x
            free.discard(x)
    rest = [x for x in sorted(c.locs) if x not in m]
    left = sorted(free)
    if len(rest) == 1 and len(left) == 1:
        m[rest[0]] = left[0]
    else:
        for x in rest:
            m[x] = x + "'"
    return m


class Result:
    def __init__(self, status, why="", edits=(), facts=0):
        self.status = status  # same | changed | undecided
        self.why = why
        self.edits = list(edits)
        self.facts = facts

    def __repr__(self):
        return f"{self.status} {self.why}"


def norm_of(prog, func, inline, keep_asserts=False):
    return Norm(flow.analyse(prog, func, inline), keep_asserts)
