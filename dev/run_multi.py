"""Random compositions of behaviour preserving edits: how many would alarm?"""
import sys, ast, copy, time, collections, pickle, random
sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/dev')
from csslint.model import Program
from csslint import flow, compare, treediff
import refactor, run_refactor as R
from multiprocessing import Pool
isint = lambda i: len(sys.argv) > i and sys.argv[i].isdigit()
N = int(sys.argv[1]) if isint(1) else 6
DEPTH = int(sys.argv[2]) if len(sys.argv) > 2 else 3
SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 0

import re
def suffix(fd, k):
    src = ast.unparse(ast.fix_missing_locations(fd))
    src = re.sub(r'\b(cond_|result_|acc_|item_|iter_|y_|pair_|tmp_|m_|al_|_extracted_helper)\b', lambda m: m.group(1) + f'{k}_', src)
    return ast.parse(src).body[0]

def work(q):
    f = R.prog.get(q)
    rnd = random.Random(f"{q}{SEED}")
    res = []
    base = compare.Norm(flow.analyse(R.prog, f))
    for it in range(N):
        nf, ex, ds = f.node, [], []
        for k in range(rnd.randint(1, DEPTH)):
            vs = [v for v in refactor.variants(nf, f.cls.name if f.cls else None)]
            # by kind first
            kinds = collections.defaultdict(list)
            for v in vs: kinds[v[0].split('@')[0].split(':')[0]].append(v)
            if not kinds: break
            kk = rnd.choice(sorted(kinds))
            d, nf2, extra = rnd.choice(kinds[kk])
            extra = [(w, suffix(fd, k)) for w, fd in extra]
            nf, ex = suffix(nf2, k), ex + extra
            ds.append(d)
        try:
            t = R.build(f.module, f, nf, ex)
            src = ast.unparse(nf) + ''.join('\n' + ast.unparse(ast.fix_missing_locations(fd)) for _, fd in ex)
            compile(ast.unparse(t), 'x', 'exec')
        except Exception as e:
            res.append((q, ds, 'BADSRC', None, '')); continue
        trees = dict(R.prog.modules); trees[f.module] = ast.parse(ast.unparse(t))
        p2 = Program(None, trees)
        g = p2.get(q)
        new = {x for x in p2.inventory() if x not in R.INV}
        try:
            cur = compare.Norm(flow.analyse(p2, g, new))
        except Exception as e:
            res.append((q, ds, 'ERR ' + repr(e)[:80], None, src)); continue
        m = compare.align_locs(base, cur)
        ct = cur.renamed(m)
        if compare.equal_tables(base.table, ct):
            res.append((q, ds, 'same', None, '')); continue
        d = treediff.delta(base.table, ct)
        res.append((q, ds, 'DIFF', (len(d.edits), d.cost(), len(d.removed), len(d.added), len(base.table), 0,
               [repr(e) for e in d.edits], [treediff.show(x) for x in d.removed], [treediff.show(x) for x in d.added]), src))
    return res

if __name__ == '__main__':
    qs = [f.qual for f in R.relevant() if not f.setter]
    t = time.time()
    with Pool(8) as p:
        allres = [r for rs in p.imap_unordered(work, qs, chunksize=1) for r in rs]
    pickle.dump(allres, open('/tmp/multires.pkl', 'wb'))
    print(len(allres), collections.Counter(r[2].split()[0] for r in allres), time.time() - t)
    def ok(x):
        n,c,rm,ad=x[3][:4]
        return n+rm+ad<=4 and c<=40
    ds = [r for r in allres if r[2] == 'DIFF']
    print('alarms', sum(map(ok, ds)))
    print(collections.Counter(k.split('@')[0].split(':')[0] for r in ds if ok(r) for k in r[1]).most_common(20))
