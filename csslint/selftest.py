"""The engine must tell a small known bug from a small known refactoring."""

import ast

from . import comparer
from .model import Program

BASE = '''
class A:
    def __init__(self):
        self.items = []
        self.index = {}

    def add(self, x):
        if x not in self.index:
            self.index[x] = len(self.items)
            self.items.append(x)
        return self.index[x]

    def total(self, xs):
        res = 0
        for x in xs:
            if x > 0:
                res += x
        return res
'''
REFACTORED = '''
class A:
    def __init__(self):
        self.index = {}
        self.items = []

    def _put(self, y):
        n = len(self.items)
        self.index[y] = n
        self.items.append(y)

    def add(self, x):
        if x in self.index:
            return self.index[x]
        self._put(x)
        return self.index[x]

    def total(self, xs):
        return sum(y for y in xs if 0 < y)
'''
BUGS = {
    "A.add": BASE.replace("len(self.items)", "len(self.items) + 1"),
    "A.total": BASE.replace("x > 0", "x >= 0"),
    "A.__init__": BASE.replace("self.index = {}", "self.index = {0: 0}"),
}


def prog(src):
    return Program(None, {"m.py": ast.parse(src)})


def run():
    ref = prog(BASE)
    ok = 0
    c = comparer.Comparer(ref, prog(REFACTORED))
    for q in ("A.add", "A.total", "A.__init__"):
        assert c.check(q).status != "changed", f"self test: refactored {q} reported"
        ok += 1
    for q, src in BUGS.items():
        c = comparer.Comparer(ref, prog(src))
        assert c.check(q).status == "changed", f"self test: bug in {q} missed"
        ok += 1
    return f"{ok} cases"
