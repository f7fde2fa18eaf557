"""Plausible defects (text edits of the source): does the comparison report them?
Each file *.txt: '#### name | property | file' then blocks  <<<< old ==== new >>>>"""
import sys, os, glob, re, ast
sys.path.insert(0, '/verif')
from multiprocessing import Pool
from csslint.model import Program
from csslint import comparer, main, regions
sys.setrecursionlimit(20000)
REF = main.load_ref()
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = '/verif/csslint/ref/comb_spec_searcher/'

def cases():
    for p in sorted(glob.glob(HERE + '/*.txt')):
        for part in open(p).read().split('#### ')[1:]:
            head, body = part.split('\n', 1)
            name, prop, rel = [x.strip() for x in head.split('|')]
            yield os.path.basename(p), name, prop, rel, body

def work(case):
    src, name, prop, rel, body = case
    path = SRC + rel
    if not os.path.exists(path): path = '/repo/comb_spec_searcher/' + rel
    text = open(path).read()
    for o, n in re.findall(r'<<<<\n(.*?)====\n(.*?)>>>>', body, re.S):
        if text.count(o) != 1:
            o, n = o.rstrip('\n'), n.rstrip('\n')
        if text.count(o) != 1: return src, name, prop, 'BADEDIT %d' % text.count(o), o[:80]
        text = text.replace(o, n)
    trees = dict(REF.modules); trees['comb_spec_searcher/' + rel] = ast.parse(text)
    c = comparer.Comparer(REF, Program(None, trees))
    out = []
    for f in REF.all_funcs():
        q = f.qual + ('.setter' if f.setter else '')
        v = c.check(q)
        if v.status != 'same': out.append((v.status, q, v.why, v.describe()))
    for n in REF.classes:
        for w, l in c.check_class(n): out.append(('changed', n, w, w))
        for v in c.new_dispatch(n):
            if v.status != 'same': out.append((v.status, v.qual, v.why, v.describe()))
    st = 'CAUGHT' if any(o[0] == 'changed' for o in out) else 'UNDECIDED' if out else 'MISSED'
    if st == 'CAUGHT':
        mine = {f.qual for f in regions.functions(REF, prop)[0]}
        cl = {q.split('.')[0] for q in mine}
        if not any(o[0] == 'changed' and (o[1].replace('.setter', '') in mine or ('.' not in o[1] and o[1] in cl)) for o in out): st = 'OUTSIDE'
    return src, name, prop, st, out

if __name__ == '__main__':
    cs = list(cases())
    if len(sys.argv) > 1: cs = [c for c in cs if any(a in (c[0], c[1]) or c[1].startswith(a) for a in sys.argv[1:])]
    with Pool(8) as p:
        tot = {}
        for src, name, prop, st, out in p.imap(work, cs, chunksize=1):
            tot[st.split()[0]] = tot.get(st.split()[0], 0) + 1
            if st != 'CAUGHT' or len(sys.argv) > 1:
                print(st, src, name, prop, out if isinstance(out, str) else [(a, b, c[:70]) for a, b, c, _ in out])
                if len(sys.argv) > 1 and not isinstance(out, str):
                    for o in out: print(o[3][:1500])
    print(tot)
