"""Is each function still behaving as when it was confirmed?

The confirmed program is csslint/ref (a snapshot of the reviewed tree).  Both
programs are reduced to behaviour facts (flow.py); facts are compared, not
text.  A function whose facts differ is reported only when the difference is
local (a few small edits): that is a changed behaviour.  A function rewritten
beyond what the normal form relates is listed as undecided.
"""

import ast
import itertools
import collections
import copy
import difflib
import re

from . import effects, flow, lifetime, wide
from .adopt import adopt
from . import terms as T
from . import treediff
from .compare import Norm, align_locs, equal_tables
from .flow_names import MUTATORS
from .model import Program

IMPLICIT = {
    "__eq__", "__hash__", "__len__", "__bool__", "__iter__", "__contains__", "__getitem__",
    "__setitem__", "__delitem__", "__getstate__", "__setstate__", "__reduce__", "__reduce_ex__",
    "__copy__", "__deepcopy__", "__getattr__", "__getattribute__", "__setattr__", "__call__",
    "__lt__", "__le__", "__gt__", "__ge__", "__next__", "__enter__", "__exit__", "__ne__",
    "__new__", "__init_subclass__", "__getnewargs__", "__del__", "__missing__",
}

MAX_EDITS = 4
MAX_COST = 40
TINY_EDIT = 28  # an edit so small is read as an edit, not as another way to write it
REWRITE = 56  # from here on a difference in notation alone is not an alarm


class Verdict:
    def __init__(self, qual, status, why="", delta=None, line=0, module="", facts=0):
        self.qual = qual
        self.status = status  # same | changed | undecided | gone
        self.why = why
        self.delta = delta
        self.line = line
        self.module = module
        self.facts = facts
        self.size = 0

    def describe(self):
        out = [f"{self.module}:{self.line} {self.qual}: {self.why}"]
        if self.delta is not None:
            for e in sorted(self.delta.edits, key=lambda e: (e.cost, repr(e.key()))):
                out.append(f"    {e.kind}: {treediff.show(e.old)} => {treediff.show(e.new)}")
            for x in self.delta.removed:
                out.append(f"    missing effect: {show_ident(x)}")
            for x in self.delta.added:
                out.append(f"    added effect: {show_ident(x)}")
        return "\n".join(out)


def show_ident(k):
    kind, payload, ctx = k[0], k[1], k[2]
    s = f"{kind} {flow.show(payload)}"
    if ctx:
        s += " in " + flow.show(ctx)
    return s if len(s) < 500 else s[:500] + "..."


# ------------------------------------------------------------------ renaming


def ident_profile(prog):
    """identifier -> Counter of (module, role)"""
    out = collections.defaultdict(collections.Counter)
    for rel, tree in prog.modules.items():
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute):
                out[n.attr][(rel, "attr")] += 1
            elif isinstance(n, ast.FunctionDef):
                out[n.name][(rel, "def")] += 1
            elif isinstance(n, ast.ClassDef):
                out[n.name][(rel, "class")] += 1
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                out[n.name][(rel, "top")] += 1
        for c in ast.walk(tree):
            if isinstance(c, ast.ClassDef):
                for b in c.body:
                    for t in (
                        b.targets if isinstance(b, ast.Assign)
                        else [b.target] if isinstance(b, ast.AnnAssign) else []
                    ):
                        if isinstance(t, ast.Name):
                            out[t.id][(rel, "classattr")] += 1
    return out


def infer_renames(ref, cur):
    """Names of cur -> names of ref, for identifiers that were renamed."""
    pr, pc = ident_profile(ref), ident_profile(cur)
    gone = [n for n in pr if n not in pc]
    new = [n for n in pc if n not in pr]
    if not gone or not new or len(gone) > 12:
        return {}
    cands = []
    for g in gone:
        for n in new:
            roles = {r for _, r in pr[g]} == {r for _, r in pc[n]}
            mods = {m for m, _ in pr[g]} == {m for m, _ in pc[n]}
            if not roles or not mods:
                continue
            d = sum((pr[g] - pc[n]).values()) + sum((pc[n] - pr[g]).values())
            if d <= max(1, sum(pr[g].values()) // 4):
                cands.append((d, g, n))
    cands.sort()
    out, used = {}, set()
    for d, g, n in cands:
        if g in used or n in out:
            continue
        rivals = [c for c in cands if c[0] == d and ((c[1] == g) != (c[2] == n))]
        if any(c[1] not in used and c[2] not in out for c in rivals):
            # ambiguous: prefer similar names
            best = max(
                [c for c in cands if c[0] == d and c[1] == g and c[2] not in out],
                key=lambda c: _similar(c[1], c[2]),
            )
            n = best[2]
        out[n] = g
        used.add(g)
    return out


def _similar(a, b):
    import difflib

    return difflib.SequenceMatcher(None, a, b).ratio()


class _Rename(ast.NodeTransformer):
    def __init__(self, m, tops):
        self.m = m
        self.tops = tops

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in self.m:
            n.attr = self.m[n.attr]
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.name in self.m:
            n.name = self.m[n.name]
        return n

    def visit_ClassDef(self, n):
        self.generic_visit(n)
        if n.name in self.m:
            n.name = self.m[n.name]
        for b in n.body:
            for t in (
                b.targets if isinstance(b, ast.Assign)
                else [b.target] if isinstance(b, ast.AnnAssign) else []
            ):
                if isinstance(t, ast.Name) and t.id in self.m:
                    t.id = self.m[t.id]
        return n

    def visit_Name(self, n):
        if n.id in self.tops:
            n.id = self.m[n.id]
        return n

    def visit_alias(self, n):
        if n.name in self.tops:
            n.name = self.m[n.name]
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, str) and n.value in self.m and n.value.startswith("_"):
            n.value = self.m[n.value]
        return n


def apply_renames(prog, m):
    tops = {n for n in m if n in prog.funcs or n in prog.classes}
    trees = {}
    for rel, tree in prog.modules.items():
        trees[rel] = _Rename(m, tops).visit(copy.deepcopy(tree))
    p = Program(None, trees)
    p.errors = prog.errors
    p.root = prog.root
    return p


# ------------------------------------------------------------------ comparer


class Comparer:
    def __init__(self, ref, cur, second=False):
        self.second, self.wide = second, None
        self.ref = ref
        if not second:
            cur = adopt(ref, cur)
        self.renames = infer_renames(ref, cur)
        if self.renames:
            try:
                cur = apply_renames(cur, self.renames)
            except Exception:  # keep the original names
                self.renames = {}
        self.cur = cur
        ri, ci = ref.inventory(), cur.inventory()
        self.new = ci - ri
        self.gone = ri - ci
        self.norms = {}
        self.verdicts = {}
        # a new method that overrides an old one must not be inlined blindly
        self.new_inline = {q for q in self.new if not self.overrides(q)}
        self.gone_inline = {q for q in self.gone if not self.inherited(q)}
        self._shared = None
        self._attrs = None
        self._fnames = None
        self._domain = None
        self._texts = None
        for f in ref.all_funcs():
            g = cur.get(f.qual) if not f.setter else None
            if g is not None and f.kind != g.kind and {f.kind, g.kind} <= {"static", "method", "class"}:
                ref.extra_smeth.add(f.name)
                self.cur.extra_smeth.add(f.name)

    def overrides(self, qual):
        if "." not in qual:
            return False
        c, m = qual.split(".", 1)
        for x in self.cur.mro(c)[1:]:
            if m in x.methods:
                return True
        return False

    def inherited(self, qual):
        """A method that is gone from its class but still found in a base."""
        if "." not in qual:
            return False
        c, m = qual.split(".", 1)
        return self.cur.lookup(c, m) is not None

    def norm(self, which, func, inline):
        k = (which, func.qual, func.setter, frozenset(inline))
        if k not in self.norms:
            prog = self.ref if which == "r" else self.cur
            try:
                self.norms[k] = Norm(flow.analyse(prog, func, set(inline)))
            except Exception as e:  # outside the analysed fragment
                self.norms[k] = e
        r = self.norms[k]
        if isinstance(r, Exception):
            raise r
        return r

    # --------------------------------------------------------------- one pair
    def tables(self, rf, cf, rinl, cinl):
        r = self.norm("r", rf, rinl)
        c = self.norm("c", cf, cinl)
        if equal_tables(r.table, c.table):
            return r, r.table, c.table
        m = align_locs(r, c)
        return r, r.table, c.renamed(m)

    def check(self, qual):
        v = self.verdicts.get(qual)
        if v is None:
            self.verdicts[qual] = Verdict(qual, "undecided", "recursive")
            v = self._check(qual)
            self.lifetimes(v, qual)
            if v.status in ("changed", "undecided") and self.reread(qual):
                v.status, v.why, v.delta = "same", "the same when read the second way", None
            self.verdicts[qual] = v
        return v

    def reread(self, qual):
        """Whether the second reading of the two programs finds them the same."""
        if self.second:
            return False
        if self.wide is None:
            try:
                self.wide = Comparer(wide.widen(self.ref), wide.widen(self.cur), second=True)
            except Exception:  # outside the analysed fragment
                self.wide = False
        return bool(self.wide) and self.wide.check(qual).status == "same"

    def lifetimes(self, v, qual):
        """Iterators, copies and closures, which the facts do not tell apart."""
        if v.status not in ("same", "undecided"):
            return
        rf, cf = self.resolve(self.ref, qual), self.resolve(self.cur, qual)
        if rf is None or cf is None or self.same_text(rf, cf):
            return
        try:
            found = lifetime.compare(rf.node, cf.node, self.ref, self.cur)
            named = {n.attr if isinstance(n, ast.Attribute) else n.id
                     for n in ast.walk(cf.node) if isinstance(n, (ast.Attribute, ast.Name))}
            for q in sorted(self.new):
                f = self.cur.get(q)
                if f is not None and f.name in named:
                    found += [(ln, f"{q}: {why}") for (ln, why) in lifetime.absolute(f.node, self.cur).values()]
        except Exception:  # outside the analysed fragment
            return
        if found:
            v.status, v.why = "changed", "; ".join(sorted({w for _, w in found}))
            v.line = min(ln for ln, _ in found)

    def resolve(self, prog, qual):
        f = prog.get(qual)
        if f is None and "." in qual:
            c, m = qual.split(".", 1)
            f = prog.lookup(c, m)
        return f

    def _check(self, qual):
        rf = self.resolve(self.ref, qual)
        cf = self.resolve(self.cur, qual)
        if rf is None:
            return Verdict(qual, "undecided", "not in the confirmed program")
        if cf is None:
            return Verdict(
                qual, "gone", "function no longer defined (its callers are compared with it expanded)",
                module=rf.module, line=rf.lineno,
            )
        v = Verdict(qual, "same", module=cf.module, line=cf.lineno)
        head = self.header(rf, cf)
        if head:
            v.status, v.why = "changed", head
            return v
        rf.iterator_like = cf.iterator_like = flow.iterator_like(rf) or flow.iterator_like(cf)
        rinl, cinl = set(self.gone_inline), set(self.new_inline)
        try:
            r, rt, ct = self.tables(rf, cf, rinl, cinl)
        except Exception as e:
            if self.same_text(rf, cf):
                v.why = "identical text, outside the analysed fragment"
                return v
            v.status, v.why = "undecided", f"outside the analysed fragment: {e!r}"[:200]
            return v
        v.facts = len(rt)
        if equal_tables(rt, ct):
            return v
        first = (rt, ct)
        # the difference may be code that moved between existing functions
        for extra in self.deeper(rf, cf):
            try:
                _, rt2, ct2 = self.tables(rf, cf, rinl | extra, cinl | extra)
            except Exception:
                continue
            if equal_tables(rt2, ct2):
                v.why = "equal after expanding helpers"
                return v
        extra = self.mentioned(rf, *first)
        if extra:
            try:
                _, rt2, ct2 = self.tables(rf, cf, rinl | extra, cinl | extra)
                if equal_tables(rt2, ct2):
                    v.why = "equal after expanding helpers"
                    return v
            except Exception:
                pass
        if self.renumbered(rf, cf, rinl, cinl):
            v.why = "equal up to the order of the try statements"
            return v
        return self.judge(v, *first)

    def renumbered(self, rf, cf, rinl, cinl):
        """Two try statements that changed places keep their handlers apart."""
        n = sum(isinstance(x, ast.Try) for x in ast.walk(rf.node))
        if n != sum(isinstance(x, ast.Try) for x in ast.walk(cf.node)) or not 2 <= n <= 3:
            return False
        r = self.norm("r", rf, rinl)
        for order in itertools.permutations(range(n)):
            if order == tuple(range(n)):
                continue
            flow.EXC_ORDER = order
            try:
                c = Norm(flow.analyse(self.cur, cf, set(cinl)))
                if equal_tables(r.table, c.table) or equal_tables(r.table, c.renamed(align_locs(r, c))):
                    return True
            except Exception:
                continue
            finally:
                flow.EXC_ORDER = ()
        return False

    def mentioned(self, rf, rt, ct):
        """Functions of the program named on one side of the difference only."""
        d = treediff.delta(strip_fresh(rt), strip_fresh(ct))
        a, b = delta_names(d)
        only = (a | b) - (a & b)
        mro = {c for c in self.ref.mro(rf.cls.name)} if rf.cls is not None else set()
        out = set()
        for f in self.ref.all_funcs():
            if f.name in only and f.qual != rf.qual and self.cur.get(f.qual) is not None:
                if (f.cls is None or f.cls in mro) and not is_hook(f):
                    out.add(f.qual)
        return out

    def hook(self, qual):
        f = self.ref.get(qual)
        return f is not None and is_hook(f)

    def same_text(self, rf, cf):
        return ast.dump(strip_doc(rf.node)) == ast.dump(strip_doc(cf.node))

    def deeper(self, rf, cf):
        """Sets of existing functions to expand on both sides."""
        changed = self.changed_text()
        near = {
            q for q in changed
            if q not in (rf.qual, cf.qual) and not self.hook(q)
        }
        if near:
            yield near
        private = {
            f.qual for f in self.ref.all_funcs()
            if f.name.startswith("_") and not f.name.startswith("__")
            and f.qual != rf.qual and self.cur.get(f.qual) is not None
            and (f.cls is None or rf.cls is None or f.cls in self.ref.mro(rf.cls.name))
            and not is_hook(f)
        }
        if changed - {rf.qual, cf.qual}:
            yield private

    def changed_text(self):
        if self._shared is None:
            self._shared = set()
            for f in self.ref.all_funcs():
                c = self.cur.get(f.qual)
                if c is not None and not f.setter and not self.same_text(f, c):
                    self._shared.add(f.qual)
        return self._shared

    def header(self, rf, cf):
        """Differences outside the body: kind, decorators, defaults."""
        if rf.kind != cf.kind and not {rf.kind, cf.kind} <= {"static", "method", "class"}:
            return f"is now a {cf.kind} function, was {rf.kind}"
        caching = ("lru_cache", "cache", "cached_property")
        rd = {d.split("(")[0].split(".")[-1] for d in rf.decorators}
        cd = {d.split("(")[0].split(".")[-1] for d in cf.decorators}
        for d in caching:
            if d in cd and d not in rd:
                return f"result is now cached ({d})"
        for d in rd - cd:
            if d in ("ensure_specification", "contextmanager", "total_ordering"):
                return f"decorator {d} is gone"
        ra, ca = defaults(rf.node), defaults(cf.node)
        for n in ra:
            if n in ca and ra[n] != ca[n]:
                return f"default of parameter {n} is {ca[n]}, was {ra[n]}"
        return ""

    # --------------------------------------------------------------- judgement
    def judge(self, v, rt, ct):
        a, b = strip_fresh(rt), strip_fresh(ct)
        if equal_tables(a, b):
            v.status, v.why = "undecided", "same effects, only the order of independent reads differs"
            v.delta = None
            return v
        d = treediff.delta(a, b)
        d.removed = [x for x in d.removed]
        d.added = [x for x in d.added if not self.harmless(x)]
        d.edits = {e for e in d.edits if not trivial(e)}
        v.delta = d
        n = len(d.edits) + len(d.removed) + len(d.added)
        if n == 0:
            v.status, v.why = "same", "only harmless additions"
            return v
        small = n <= MAX_EDITS and d.cost() <= MAX_COST
        pure_loss = not d.edits and not d.added and len(d.removed) <= 12
        guards_only = not d.removed and not d.added and len(d.edits) <= 3
        lost = self.vanished(a, b)
        size = self.edit_size(v.qual)
        if representation_change(d) or (rewritten(d) and not self.weaker(d)) or protocol(d):
            related, why = False, "a local collection is built in a way the normal form does not relate"
        elif small or pure_loss or guards_only or gone(d):
            related, why = True, f"behaviour differs from the confirmed one ({n} local difference(s))"
        else:
            related, why = False, f"rewritten: {n} differences, not related by the normal form"
        v.size = size
        foot = self.footprint(v.qual, a, b)
        if foot:
            v.status, v.why = "changed", "; ".join(foot)
        elif self.remembers(v.qual):
            v.status, v.why = "changed", "; ".join(self.remembers(v.qual))
        elif not d.removed and not d.added and all(lockstep(e) for e in d.edits):
            v.status, v.why = "undecided", "sequences of the same length are walked together or by position"
        elif lost:
            v.status, v.why = "changed", f"no longer depends on {', '.join(sorted(lost))}"
        elif size <= TINY_EDIT and not related:
            v.status, v.why = "changed", f"behaviour differs from the confirmed one (edit of {size} tokens)"
        elif related and size >= REWRITE and not self.strong(a, b):
            v.status, v.why = "undecided", f"rewritten ({size} tokens); what differs may be the notation"
        else:
            v.status, v.why = ("changed" if related else "undecided"), why
        return v

    def remembers(self, qual):
        """State that did not exist in the confirmed program, which the function
        both fills and looks at: its answer now depends on the calls before it."""
        f, g = self.resolve(self.cur, qual), self.resolve(self.ref, qual)
        if f is None or g is None:
            return []
        if self._attrs is None:
            self._attrs = {n.attr for t in self.ref.modules.values() for n in ast.walk(t) if isinstance(n, ast.Attribute)}
        nodes, todo, seen = [], [f.node], set()
        byname = {}
        for q in self.new:
            byname.setdefault(q.split(".")[-1], []).append(q)
        while todo:  # the helpers it was split into count as part of it
            nodes.append(todo.pop())
            for n in ast.walk(nodes[-1]):
                name = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
                for q in byname.get(name, ()):
                    h = self.cur.get(q)
                    if q not in seen and h is not None:
                        seen.add(q)
                        todo.append(h.node)
        filled, read, other = set(), collections.Counter(), set()
        old = {n.attr for n in ast.walk(g.node) if isinstance(n, ast.Attribute)}
        for node in nodes:
            for n in ast.walk(node):
                if isinstance(n, ast.Global):
                    other.update(n.names)
                if isinstance(n, ast.Attribute) and n.attr == "__dict__" and "__dict__" not in old:
                    other.add("__dict__")
                if not isinstance(n, ast.Attribute) or n.attr in self._attrs:
                    continue
                if isinstance(n.ctx, ast.Load):
                    read[n.attr] += 1
                else:
                    filled.add(n.attr)
            for n in ast.walk(node):  # self.seen.add(x), self.seen[x] = y
                t = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    t = n.func.value
                elif isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
                    t = n.value
                while isinstance(t, ast.Subscript):
                    t = t.value
                if isinstance(t, ast.Attribute) and t.attr not in self._attrs:
                    filled.add(t.attr)
                    read[t.attr] -= 1
        kept = {a for a in filled if read[a] > 0}
        if kept:  # a renamed attribute is not a new one
            now = {n.attr for t in self.cur.modules.values() for n in ast.walk(t) if isinstance(n, ast.Attribute)}
            kept = kept if self._attrs <= now else set()
        return [f"the result now depends on what earlier calls left in {n}" for n in sorted(kept | other)]

    def footprint(self, qual, rt, ct):
        """State of the program that the function changes now and did not
        change, or changed and no longer does, itself or through its callees."""
        rf, cf = self.resolve(self.ref, qual), self.resolve(self.cur, qual)
        a, b = targets(rt), targets(ct)
        out = []
        for prog, f, mine, other, word in (
            (self.ref, rf, a, b, "now also changes"), (self.cur, cf, b, a, "no longer changes"),
        ):
            extra = {n for n in other - mine if n in self.ref_domain()}
            if not extra:
                continue
            eff = effects_of(prog)
            r, m, calls = eff.direct.get(f.qual) or eff._direct(f)
            r, m = eff.closure(r, m, calls)
            extra -= r | m | eff.memo
            out += [f"{word} {n}" for n in sorted(extra)]
        a, b = reordered(rt), reordered(ct)
        if a != b:
            out += [f"{'now' if n in b else 'no longer'} reorders {n}" for n in sorted(a ^ b)]
        return out

    def strong(self, rt, ct):
        """What differs involves state or functions of the program, not only
        the notation of a value."""
        return any(
            self.is_domain(n) and not n.startswith("operator ") for n in all_names(rt) ^ all_names(ct)
        )

    def edit_size(self, qual):
        """How much of the text that makes up a function was rewritten (tokens
        removed and added in it and in the changed or new functions it uses)."""
        if self._texts is None:
            self._texts = tuple(
                {(f.qual, bool(f.setter)): text_of(f) for f in p.all_funcs()} for p in (self.ref, self.cur)
            )
        r, c = self._texts
        diff = {k for k in set(r) | set(c) if r.get(k) != c.get(k)}
        seen, todo, names_ = set(), [k for k in diff if k[0] == qual], set()
        if not todo:
            for d in (r, c):
                names_.update(d.get((qual, False), ()), d.get((qual, True), ()))
        while todo or names_:
            while todo:
                k = todo.pop()
                if k not in seen:
                    seen.add(k)
                    for d in (r, c):
                        names_.update(d.get(k, ()))
            todo = [k for k in diff - seen if k[0].split(".")[-1] in names_]
            names_ = set()
        total = 0
        for k in seen:
            a, b = r.get(k, ()), c.get(k, ())
            m = difflib.SequenceMatcher(None, a, b, autojunk=False)
            for op, i, j, u, w in m.get_opcodes():
                if op != "equal":
                    total += j - i + w - u
        return total

    def vanished(self, rt, ct):
        """What of the program the confirmed behaviour of a function depended on
        and the current one does not mention at all, when nothing new came in
        that could stand for it."""
        a, b = all_names(rt), all_names(ct)
        if not (b - a) <= PLUMBING:
            return set()
        lost = {n for n in a - b if self.is_domain(n)}
        for g in b:  # stored by a constructor that is still called
            f = self.ref.get(f"{g.split('.')[-1]}.__init__")
            if f is not None:
                lost -= {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
        return lost

    def is_domain(self, name):
        if name.startswith("operator "):
            return True
        return name in self.ref_domain()

    def ref_domain(self):
        """Attributes and methods the program itself defines."""
        if self._domain is None:
            self._domain = {f.name for f in self.ref.all_funcs() if f.cls is not None}
            for tree in self.ref.modules.values():
                for n in ast.walk(tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        self._domain.add(n.attr)
            self._domain -= CONTAINER
        return self._domain

    def weaker(self, d):
        """The new code only uses what the old code used, and a call the old code
        made to a function of the program is gone: not another way to write it."""
        a, b = delta_names(d)
        lost = a - b
        return b <= a and any(self.is_function(n) for n in lost)

    def is_function(self, name):
        if self._fnames is None:
            self._fnames = {f.name for f in self.ref.all_funcs()} - CONTAINER
        return name.split(".")[-1] in self._fnames

    def harmless(self, ident):
        """An added effect that cannot change what other code sees."""
        kind, payload = ident[0], ident[1]
        if kind == "do":
            t = payload[0]
            if t[0] == "call":
                f = t[1]
                if f[0] == "attr" and f[2] in MUTATORS:
                    return False
                if f[0] == "attr" and f[2] in ("debug", "info", "warning", "error", "exception"):
                    return True
                eff = effects_of(self.cur)
                cls = None
                if f[0] == "attr":
                    kind2 = "self" if f[1] == ("self",) else "typed"
                    if f[1] == ("self",):
                        r, m = eff.of_call("any", f[2], cls)
                    else:
                        r, m = eff.of_call("any", f[2], cls)
                elif f[0] == "g":
                    r, m = eff.of_call("fn", f[1].split(".")[-1], cls)
                else:
                    return False
                return not r and not m
            return False
        if kind == "store":
            t = payload[0]
            if t[0] == "attr":
                # a new attribute that nobody reads
                return not self.is_read(t[2])
        if kind == "assign":
            return False
        return False

    def is_read(self, name):
        for tree in self.cur.modules.values():
            for n in ast.walk(tree):
                if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Load):
                    return True
                if isinstance(n, ast.Constant) and n.value == name:
                    return True
        return False

    # --------------------------------------------------------------- classes
    def check_class(self, name):
        """Class level differences: list of (why, line)."""
        rc, cc = self.ref.classes.get(name), self.cur.classes.get(name)
        out = []
        if rc is None or cc is None:
            return out
        for a, val in rc.attrs.items():
            if a in cc.attrs:
                x, y = dump(val), dump(cc.attrs[a])
                if x != y:
                    out.append((f"class attribute {name}.{a} is {y}, was {x}", line_of(cc.attrs[a], cc)))
            elif self.cur.class_attr(name, a) is None:
                if not self.cur_has_attr(cc, a):
                    out.append((f"class attribute {name}.{a} is gone", cc.node.lineno))
        rfields = [b.target.id for b in rc.node.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)]
        cfields = [b.target.id for b in cc.node.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)]
        if "NamedTuple" in rc.bases and rfields != cfields[: len(rfields)]:
            out.append((f"fields of {name} are {cfields}, were {rfields}", cc.node.lineno))
        cur_mro = {c.name for c in self.cur.mro(name)}
        for b in rc.bases:
            if b in self.cur.classes and b not in cur_mro:
                out.append((f"{name} no longer derives from {b}", cc.node.lineno))
        for a, val in cc.attrs.items():
            if a not in rc.attrs and not isinstance(val, tuple) and mutable_literal(val):
                if self.is_read(a):
                    out.append((f"new class level mutable {name}.{a} is shared by all instances", line_of(val, cc)))
        return out

    def cur_has_attr(self, cc, a):
        return any(
            isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Store)
            for n in ast.walk(cc.node)
        )

    def new_dispatch(self, name):
        """Methods of class `name` that change what a call resolves to."""
        cc = self.cur.classes.get(name)
        rc = self.ref.classes.get(name)
        out = []
        if cc is None or rc is None:
            return out
        for m, f in cc.methods.items():
            if m in rc.methods:
                continue
            old = self.ref.lookup(name, m)
            if old is not None:
                v = Verdict(f"{name}.{m}", "same", module=f.module, line=f.lineno)
                if old.is_abstract:
                    continue
                try:
                    _, rt, ct = self.tables(old, f, set(self.gone_inline), set(self.new_inline) - {f.qual})
                except Exception as e:
                    v.status, v.why = "undecided", repr(e)[:200]
                    out.append(v)
                    continue
                if not equal_tables(rt, ct):
                    v = self.judge(v, rt, ct)
                    v.why = "new override: " + v.why
                out.append(v)
            elif m in IMPLICIT:
                out.append(
                    Verdict(
                        f"{name}.{m}", "changed",
                        f"new protocol method {m} changes implicit behaviour of {name}",
                        module=f.module, line=f.lineno,
                    )
                )
        return out

    def module_consts(self, rel):
        out = []
        rc, cc = self.ref.consts.get(rel, {}), self.cur.consts.get(rel, {})
        for n, v in rc.items():
            if n in cc and dump(v) != dump(cc[n]):
                if isinstance(v, (ast.Subscript,)) or n in ("__all__",):
                    continue  # type aliases
                if isinstance(v, ast.Call) and ast.unparse(v.func) in ("TypeVar", "NewType"):
                    continue
                out.append((f"module constant {n} is {dump(cc[n])}, was {dump(v)}", line_of(cc[n], None)))
        return out


def effects_of(prog):
    e = getattr(prog, "_effects", None)
    if e is None:
        e = prog._effects = effects.Effects(prog)
    return e


def targets(table):
    """Attributes whose content a function itself changes."""
    out = set()
    for k in table:
        if k[0] == "store":
            t = k[1][0]
        elif k[0] == "do" and k[1][0][0] == "call" and k[1][0][1][0] == "attr" and k[1][0][1][2] in MUTATORS:
            t = k[1][0][1][1]
        else:
            continue
        while t[0] in ("sub", "at", "post", "res") and len(t) > 1 and isinstance(t[1], tuple):
            t = t[1]
        if t[0] == "attr" and t[1][0] in ("self", "cls"):
            out.add(t[2])
    return out


def text_of(f):
    """The tokens of a function without documentation and annotations."""
    node = copy.deepcopy(strip_doc(f.node))
    for n in ast.walk(node):
        if isinstance(n, ast.arg):
            n.annotation = None
        elif isinstance(n, ast.FunctionDef):
            n.returns = None
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            n.annotation = ast.Name("_", ast.Load())
    return tuple(TOKEN.findall(ast.unparse(node)))


TOKEN = re.compile(r"\w+|[^\w\s]")


def mutable_literal(v):
    if isinstance(v, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return (
        isinstance(v, ast.Call)
        and isinstance(v.func, ast.Name)
        and v.func.id in ("dict", "list", "set", "defaultdict", "Counter", "deque", "OrderedDict",
                          "WeakKeyDictionary", "WeakValueDictionary")
    )


def dump(v):
    if isinstance(v, tuple):
        return f"{ast.unparse(v[1])}[{v[2]}]"
    return ast.unparse(v)


def line_of(v, cc):
    if isinstance(v, tuple):
        v = v[1]
    return getattr(v, "lineno", cc.node.lineno if cc is not None else 0)


def defaults(node):
    a = node.args
    pos = a.posonlyargs + a.args
    out = {}
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        out[p.arg] = ast.unparse(d)
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            out[p.arg] = ast.unparse(d)
    return out


def strip_doc(node):
    n = copy.copy(node)
    b = list(node.body)
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        b = b[1:]
    n.body = b
    n.decorator_list = []
    return n


def strip_fresh(table):
    """Forget whether a read came before or after an opaque call."""
    out = {}
    for k, g in table.items():
        both = several_versions((k, g))
        if both:
            def f(x, both=both):
                return _ranked(x, both)
        else:
            f = _fresh
        k2 = T.rebuild(k, f)
        g2 = T.rebuild(g, f)
        out[k2] = T.lor(out[k2], g2) if k2 in out else g2
    return out


def _fresh(x):
    if x[0] in ("old", "post"):
        return T.rebuild(x[1], _fresh)
    return None


def _peel(x):
    n = 0
    while x[0] in ("old", "post"):
        n = -1 if x[0] == "old" else n + 1
        x = x[1]
    return x, n


def several_versions(t):
    """Terms read at several times within one fact: term -> its versions in order."""
    vers = {}

    def walk(x, wrapped):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] in ("old", "post") and len(x) == 2:
            b, n = _peel(x)
            if b[0] in ("call", "loc", "res"):
                vers.setdefault(T.rebuild(b, _fresh), set()).add(n)
            walk(b, True)
            return
        if not wrapped and plain and x in plain:
            vers[x].add(0)
        for y in x:
            walk(y, False)

    plain = None
    walk(t, False)
    if not vers:
        return {}
    plain = set(vers)
    walk(t, False)
    return {b: sorted(v) for b, v in vers.items() if len(v) > 1}


def _ranked(x, both):
    if x[0] in ("old", "post"):
        b, n = _peel(x)
        r = T.rebuild(b, lambda y: _ranked(y, both))
        vs = both.get(T.rebuild(b, _fresh))
        for _ in range(vs.index(n) if vs else 0):
            r = ("post", r)
        return r
    return None


def on_local(x):
    """A fact that reads or writes a local memory cell or a fresh collection."""
    if x[0] in ("assign", "store", "del"):
        t = x[1][0]
    elif x[0] == "do" and x[1][0][0] == "call":
        t = x[1][0][1]
    else:
        return False
    while t[0] in ("sub", "attr"):
        t = t[1]
    return t[0] in ("loc", "coll", "ddict", "bin", "obj") or (t[0] == "call" and t[1][0] == "g")


def loop_kind(t):
    if isinstance(t, tuple) and t:
        if t[0] in ("for", "while"):
            return t[0]
        if isinstance(t[0], tuple):
            return loop_kind(t[0])
    return None


def has_coll(t):
    if not isinstance(t, tuple):
        return False
    if t and t[0] in ("coll", "counter", "ddict"):
        return True
    return any(has_coll(x) for x in t)


PLUMBING = {
    "len", "list", "tuple", "set", "dict", "range", "zip", "enumerate", "map", "filter", "iter", "next",
    "any", "all", "items", "keys", "values", "append", "extend", "get", "update", "add", "setdefault", "pop",
    "discard", "remove", "copy", "sorted", "union", "issuperset", "issubset", "popleft", "appendleft",
    "itertools.chain", "chain", "isdisjoint", "index", "count", "bool", "int", "operator sum", "operator mul",
}


CONTAINER = set(dir(dict)) | set(dir(list)) | set(dir(set)) | set(dir(str))
CONTAINER |= {"appendleft", "popleft", "elements", "most_common"}


def all_names(t, acc=None):
    if acc is None:
        acc = set()
    if isinstance(t, dict):
        for k, v in t.items():
            all_names(k, acc)
            all_names(v, acc)
    elif isinstance(t, (tuple, frozenset, list)) and t:
        if isinstance(t, tuple) and t[0] == "attr" and len(t) == 3 and isinstance(t[2], str):
            acc.add(t[2])
            all_names(t[1], acc)
        elif isinstance(t, tuple) and t[0] in ("g", "smeth") and len(t) == 2:
            acc.add(t[1])
        else:
            if isinstance(t, tuple) and t[0] == "mul":
                acc.add("operator mul")
            if isinstance(t, tuple) and t[0] != "attr" and ("self",) in t:
                acc.add("self as a whole")
            for x in t:
                all_names(x, acc)
    return acc


def delta_names(d):
    loss, gain = list(d.removed), list(d.added)
    for e in d.edits:
        if e.kind.endswith("dropped"):
            loss.append(e.old)
        elif e.kind.endswith("added"):
            gain.append(e.new if e.new is not None else e.old)
        else:
            loss.append(e.old)
            gain.append(e.new)
    return names(tuple(loss)), names(tuple(gain))


def names(t, acc=None):
    if acc is None:
        acc = set()
    if isinstance(t, tuple) and t:
        if t[0] == "attr" and len(t) == 3 and isinstance(t[2], str):
            acc.add(t[2])
            names(t[1], acc)
        elif t[0] in ("g", "smeth") and len(t) == 2:
            acc.add(t[1])
        else:
            for x in t:
                names(x, acc)
    return acc


def reordered(table):
    """State of the program that is put in another order in place."""
    out = set()
    for k in table:
        if k[0] == "do" and k[1][0][0] == "call" and k[1][0][1][0] == "attr" and not on_local(k):
            f = k[1][0][1]
            if f[2] in ("sort", "reverse", "rotate"):
                out |= {n for n in all_names({(f[1],): None}) if "operator" not in n}
    return out


def gone(d):
    """An effect on the state of the program is missing and no fact came instead."""
    return not d.added and any(x[0] in ("do", "store", "del") and not on_local(x) for x in d.removed)


def rewritten(d):
    """Something was lost and something similar came instead: another way to
    write it, as far as this comparison can tell."""
    loss, gain = list(d.removed), list(d.added)
    for e in d.edits:
        if e.kind.endswith("dropped"):
            loss.append(e.old)
        elif e.kind.endswith("added"):
            gain.append(e.new if e.new is not None else e.old)
    # an effect on the state of the program that is gone did not become a condition
    if loss and gain and not gone(d):
        a, b = names(tuple(loss)), names(tuple(gain))
        if a and b and len(a & b) * 2 >= min(len(a), len(b)):
            return True
    for e in d.edits:
        if e.kind in ("replace", "condition"):
            if treediff.size(e.old) >= 6 and treediff.size(e.new) >= 6:
                a, b = names(e.old), names(e.new)
                if a | b and len(a & b) >= 0.6 * len(a | b):
                    return True
        if e.kind in ("item dropped", "item added"):
            t = e.old if e.old is not None else e.new
            if t[0] == "while" and any(x.kind.startswith("condition") for x in d.edits):
                # a nested while loop that became a test in the outer loop, or the converse
                if any(k[2] and sum(f[0] == "while" for f in k[2]) >= 2 for k in d.removed + d.added):
                    return True
    return False


def lockstep(e):
    """zip(a, b) became a (b is read by position), or the converse."""
    if e.kind == "wrapped":
        z, x = e.new, e.old
    elif e.kind == "unwrapped":
        z, x = e.old, e.new
    else:
        return False
    return z[0] == "zip" and x in z[1:]


LOOKUP = (("g", "KeyError"), ("g", "IndexError"), ("g", "StopIteration"))


def protocol(d):
    """An exception of a failed look-up on one side, a test on the other."""
    def caught(t):
        return isinstance(t, tuple) and bool(t) and (
            t[0] == "exc" and t[1] in LOOKUP or any(caught(x) for x in t)
        )

    one = two = False
    lost = gained = False
    for e in d.edits:
        o = e.old is not None and caught(e.old)
        n = e.new is not None and caught(e.new)
        one |= o and not n
        two |= n and not o
        lost |= e.kind == "condition dropped" or (o and e.new is not None)
        gained |= e.kind == "condition added" or (n and e.old is not None)
        gained |= o and e.new is not None
        lost |= n and e.old is not None
    return (one or two) and lost and gained


def representation_change(d):
    for e in d.edits:
        if e.kind == "replace" and has_coll(e.old) and any(on_local(x) for x in d.added):
            return True
        if e.kind == "replace" and has_coll(e.new) and any(on_local(x) for x in d.removed):
            return True
        if e.kind == "replace" and {loop_kind(e.old), loop_kind(e.new)} == {"for", "while"}:
            return True  # another kind of loop
    dropped = [e.old for e in d.edits if e.kind == "item dropped"] + [x for x in d.removed if has_coll(x)]
    added = [e.new for e in d.edits if e.kind == "item added"] + [x for x in d.added if has_coll(x)]
    if dropped and any(on_local(x) for x in d.added):
        return True
    return bool(added and any(on_local(x) for x in d.removed))


def trivial(e):
    """Edits that cannot matter."""
    if e.kind in ("condition added", "condition dropped"):
        t = e.old if e.old is not None else e.new
        # the domain of a loop is not empty inside the loop
        return False
    return False


def is_hook(f):
    """A method made to be overridden: abstract, or only a constant answer."""
    if f.cls is None:
        return False
    for d in f.node.decorator_list:
        if "abstract" in ast.unparse(d):
            return True
    body = [
        x for x in f.node.body
        if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))
    ]
    if not body:
        return True
    last = body[-1]
    if isinstance(last, ast.Raise) and "NotImplementedError" in ast.unparse(last):
        return True
    if len(body) == 1:
        if isinstance(last, ast.Pass):
            return True
        if isinstance(last, ast.Return):
            v = last.value
            if v is None or isinstance(v, ast.Constant):
                return True
            if isinstance(v, ast.Call):
                return not v.args and not v.keywords and isinstance(v.func, ast.Name)
            return isinstance(v, (ast.Tuple, ast.List, ast.Dict)) and not list(ast.iter_child_nodes(v))[1:]
    return False
