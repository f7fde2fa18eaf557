import sys, ast, copy, time, collections, pickle
sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/dev')
from csslint.model import Program
from csslint import flow, compare, treediff
import mutants, run_refactor as R
from multiprocessing import Pool

def work(q):
    f = R.prog.get(q)
    res = []
    base = compare.Norm(flow.analyse(R.prog, f))
    for desc, nf in mutants.mutants(f.node):
        t = R.build(f.module, f, nf, [])
        trees = dict(R.prog.modules); trees[f.module] = ast.parse(ast.unparse(t))
        p2 = Program(None, trees)
        g = p2.get(q)
        try:
            cur = compare.Norm(flow.analyse(p2, g, set()))
        except Exception as e:
            res.append((q, desc, 'ERR ' + repr(e)[:80], None, ast.unparse(nf))); continue
        m = compare.align_locs(base, cur)
        ct = cur.renamed(m)
        if compare.equal_tables(base.table, ct):
            res.append((q, desc, 'same', None, ast.unparse(nf))); continue
        t0 = time.time()
        d = treediff.delta(base.table, ct)
        res.append((q, desc, 'DIFF', (len(d.edits), d.cost(), len(d.removed), len(d.added), len(base.table), time.time() - t0,
               [repr(e) for e in d.edits], [treediff.show(x) for x in d.removed], [treediff.show(x) for x in d.added]), ast.unparse(nf)))
    return res

if __name__ == '__main__':
    qs = [f.qual for f in R.relevant() if not f.setter]
    if sys.argv[1:]: qs = [q for q in qs if q in sys.argv[1:]]
    t = time.time()
    with Pool(8) as p:
        allres = [r for rs in p.imap_unordered(work, qs, chunksize=1) for r in rs]
    pickle.dump(allres, open('/tmp/mutres.pkl', 'wb'))
    c = collections.Counter((d.split('@')[0], r.split()[0]) for _, d, r, _, _ in allres)
    print(len(allres), time.time() - t)
    for k in sorted({k for k, _ in c}): print(k, {r: c[k, r] for r in ('same', 'DIFF', 'ERR') if c[k, r]})
