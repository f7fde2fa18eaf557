import sys
sys.path.insert(0, ".")
from comb_spec_searcher import (AtomStrategy, CombinatorialClass,
    CombinatorialSpecificationSearcher, StrategyPack)
from comb_spec_searcher.combinatorial_class import CombinatorialObject
from comb_spec_searcher.bijection import ParallelSpecFinder, EqPathParallelSpecFinder
from comb_spec_searcher.isomorphism import Isomorphism
from comb_spec_searcher.strategies import CartesianProductStrategy, DisjointUnionStrategy

class W(str, CombinatorialObject):
    def size(self): return len(self)

class Words(CombinatorialClass):
    def __init__(self, tag, words):
        self.tag, self.words = tag, frozenset(words)
    def is_empty(self): return not self.words
    def is_atom(self): return len(self.words) == 1
    def minimum_size_of_object(self): return min(map(len, self.words))
    def objects_of_size(self, n, **p):
        return (W(w) for w in sorted(self.words) if len(w) == n)
    def to_jsonable(self): return {"tag": self.tag, "words": sorted(self.words)}
    @classmethod
    def from_dict(cls, d): return cls(d["tag"], d["words"])
    def __eq__(self, o): return isinstance(o, Words) and (self.tag, self.words) == (o.tag, o.words)
    def __hash__(self): return hash((self.tag, self.words))
    def __repr__(self): return self.tag
    __str__ = __repr__

def atom(w): return Words("atom", [w])
AB = Words("ab", ["a", "b"])
TWO = ["aa", "ab"]
def base(tag): return Words(tag, TWO)
UNION = {}
PROD = {AB: None}
UNION = {AB: (atom("a"), atom("b"))}
PROD = {}
def both(c, kinds):
    if "u" in kinds: UNION[c] = (atom("aa"), atom("ab"))
    if "p" in kinds: PROD[c] = (atom("a"), AB)

X, Y = base("X"), base("Y"); both(X, "up"); both(Y, "p")
X2, Y2 = base("X2"), base("Y2"); both(X2, "u"); both(Y2, "up")
Z, Z2 = Words("Z", ["b" + w for w in TWO]), Words("Z2", ["b" + w for w in TWO])
PROD[Z] = (atom("b"), X)
PROD[Z2] = (atom("b"), Y2)
SIX = {u + v + "b" + w for u in TWO for v in TWO for w in TWO}
R1, R2 = Words("R1", SIX), Words("R2", SIX)
import itertools
order1, order2 = (X, Y, Z), (X2, Y2, Z2)
PROD[R1] = order1; PROD[R2] = order2

class P(CartesianProductStrategy):
    def decomposition_function(self, c): return PROD.get(c)
    def formal_step(self): return "product"
    def backward_map(self, c, objs, children=None): yield W("".join(objs))
    def forward_map(self, c, obj, children=None):
        out = []
        for ch in PROD[c]:
            n = ch.minimum_size_of_object(); out.append(W(obj[:n])); obj = obj[n:]
        return tuple(out)
    @classmethod
    def from_dict(cls, d): return cls()
class U(DisjointUnionStrategy):
    def decomposition_function(self, c): return UNION.get(c)
    def formal_step(self): return "union"
    def forward_map(self, c, obj, children=None):
        return tuple(obj if obj in ch.words else None for ch in UNION[c])
    @classmethod
    def from_dict(cls, d): return cls()
from comb_spec_searcher.strategies import StrategyFactory
class Both(StrategyFactory):
    def __call__(self, c):
        yield P()
        yield U()
    def __str__(self): return "both"
    def __repr__(self): return "both"
    @classmethod
    def from_dict(cls, d): return cls()
pack = StrategyPack([Both()], [], [], [AtomStrategy()], "t")
for F in (ParallelSpecFinder, EqPathParallelSpecFinder):
  for s1 in set(itertools.permutations(order1)):
    for s2 in set(itertools.permutations(order2)):
        PROD[R1], PROD[R2] = s1, s2
        found = F(CombinatorialSpecificationSearcher(R1, pack), CombinatorialSpecificationSearcher(R2, pack)).find()
        if found is None: print(F.__name__, s1, s2, None); continue
        a, b = found
        print(F.__name__, s1, s2, a.count_objects_of_size(7), b.count_objects_of_size(7), Isomorphism.check(a, b))
PROD[R1], PROD[R2] = order1, order2
f = ParallelSpecFinder(CombinatorialSpecificationSearcher(R1, pack), CombinatorialSpecificationSearcher(R2, pack))
for pi in (f._pi1, f._pi2):
    db = pi.searcher.classdb
    n = {l: repr(db.get_class(l)) for l in range(20) if l in db}
    print(n); print(pi.atom_map); print({k: dict(v) for k, v in pi.eq_label_rules.items()} )
