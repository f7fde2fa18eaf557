"""Syntactic size of a change (tokens, after canonical unparse) for the corpora."""
import sys, ast, difflib, re, io, tokenize
sys.path.insert(0, '/verif')
def toks(src): return re.findall(r"\w+|[^\w\s]", src)
def funcs(tree):
    d = {}
    def go(n, p):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef,)): 
                k = p + c.name + ('.s' if any('setter' in ast.unparse(x) for x in c.decorator_list) else '')
                c2 = c
                b = c.body[1:] if c.body and isinstance(c.body[0], ast.Expr) and isinstance(c.body[0].value, ast.Constant) else c.body
                for a in ast.walk(c):
                    if isinstance(a, ast.arg): a.annotation = None
                c.returns = None
                d[k] = "\n".join([ast.unparse(c.args)] + [ast.unparse(x) for x in b])
            elif isinstance(c, ast.ClassDef): go(c, p + c.name + '.')
    go(tree, '')
    return d
def size(a, b):
    A, B = funcs(a), funcs(b)
    ins = dele = 0
    for k in set(A) | set(B):
        x, y = toks(A.get(k, '')), toks(B.get(k, ''))
        if x == y: continue
        for op, i, j, u, v in difflib.SequenceMatcher(None, x, y, autojunk=False).get_opcodes():
            if op != 'equal': dele += j - i; ins += v - u
    return dele, ins
if __name__ == '__main__':
    import importlib.util, glob, os
    def load(p):
        s = importlib.util.spec_from_file_location(p.replace('/', '_'), p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
    rows = []
    H = load('/verif/dev/hand/run.py'); B = load('/verif/dev/bugs/run.py')
    for src, n, rel, body in H.cases():
        rel = 'comb_spec_searcher/' + rel
        t, _ = H.patch(H.REF.modules[rel], body)
        rows.append(('R', n, size(ast.parse(ast.unparse(H.REF.modules[rel])), ast.parse(ast.unparse(t)))))
    for src, n, prop, rel, body in B.cases():
        text = old = open(B.SRC + rel).read() if os.path.exists(B.SRC + rel) else open('/repo/comb_spec_searcher/' + rel).read()
        for o, nn in re.findall(r'<<<<\n(.*?)====\n(.*?)>>>>', body, re.S):
            if text.count(o) != 1: o, nn = o.rstrip('\n'), nn.rstrip('\n')
            text = text.replace(o, nn)
        rows.append(('B', n, size(ast.parse(old), ast.parse(text))))
    import subprocess
    for d in sorted(glob.glob('/verif/seeded/*/patch.diff')):
        rows.append(('B', d.split('/')[-2], (0, 0)))
    rows.sort(key=lambda r: sum(r[2]))
    for r in rows: print(r[0], r[1], r[2])
