"""Obligations over the hand rewrites (must be quiet) and the planted defects (counted)."""
import sys, ast, importlib.util, re
sys.path.insert(0, '/verif')
from multiprocessing import Pool
from csslint.model import Program
from csslint import rules
def load(p, n):
    s = importlib.util.spec_from_file_location(n, p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
H = load('/verif/dev/hand/run.py', 'hand'); B = load('/verif/dev/bugs/run.py', 'bugs')
REF = H.REF
def findings(cur):
    out = []
    for p in sorted(rules.OBLIGATIONS):
        o = []; rules.run(p, REF, cur, 'quick', {}, o)
        out += [(p, x.rule, x.where, x.text[:160]) for x in o]
    return out
def hand(c):
    src, name, rel, body = c; rel = 'comb_spec_searcher/' + rel
    t, _ = H.patch(REF.modules[rel], body); trees = dict(REF.modules); trees[rel] = ast.parse(ast.unparse(t))
    return name, '', findings(Program(None, trees))
def bug(c):
    src, name, prop, rel, body = c
    import os
    text = open(B.SRC + rel if os.path.exists(B.SRC + rel) else '/repo/comb_spec_searcher/' + rel).read()
    for o, n in re.findall(r'<<<<\n(.*?)====\n(.*?)>>>>', body, re.S):
        if text.count(o) != 1: o, n = o.rstrip('\n'), n.rstrip('\n')
        text = text.replace(o, n)
    trees = dict(REF.modules); trees['comb_spec_searcher/' + rel] = ast.parse(text)
    return name, prop, findings(Program(None, trees))
if __name__ == '__main__':
    with Pool(8) as p:
        for mode, f, cs in (('HAND', hand, list(H.cases())), ('BUG', bug, list(B.cases()))):
            n = 0
            for name, prop, out in p.imap(f, cs):
                if out: n += 1; print(mode, name, prop, out[:2])
            print(mode, n, 'of', len(cs))
