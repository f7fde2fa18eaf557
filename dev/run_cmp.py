"""Comparer verdicts: unchanged tree, mutants (recall) and refactorings (precision).
usage: run_cmp.py same | mut | multi N DEPTH SEED"""
import sys, ast, time, collections, pickle, random
sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/dev')
from csslint.model import Program
from csslint import comparer
import mutants, run_refactor as R, refactor
from multiprocessing import Pool

mode = sys.argv[1]
REF = R.prog

def verdict(f, nf, ex):
    t = R.build(f.module, f, nf, ex)
    trees = dict(R.prog.modules); trees[f.module] = ast.parse(ast.unparse(ast.fix_missing_locations(t)))
    p2 = Program(None, trees)
    c = comparer.Comparer(REF, p2)
    c.norms.update(shared)
    v = c.check(f.qual)
    for k, x in c.norms.items():
        if k[0] == 'r': shared[k] = x
    return v
shared = {}

def mut(q):
    f = REF.get(q); out = []
    for desc, nf in mutants.mutants(f.node):
        t = time.time()
        v = verdict(f, nf, [])
        out.append((q, desc, v.status, v.why, v.describe(), ast.unparse(nf), time.time() - t))
    return out

def undefined(fd, module):
    """A helper using names it does not have: not a refactoring."""
    import builtins
    have = set(dir(builtins)) | {n.name for n in ast.walk(REF.modules[module]) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    have |= {a.asname or a.name.split('.')[0] for n in ast.walk(REF.modules[module]) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    have |= {n.id for b in REF.modules[module].body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} if False else set(REF.consts.get(module, {}))
    have |= {n.arg for n in ast.walk(fd) if isinstance(n, ast.arg)}
    have |= {n.id for n in ast.walk(fd) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    have |= {n.name for n in ast.walk(fd) if isinstance(n, ast.ExceptHandler) and n.name}
    return any(isinstance(n, ast.Name) and n.id not in have and not n.id.startswith('_extracted') for n in ast.walk(fd))

def multi(q):
    import run_multi
    f = REF.get(q); out = []
    N, DEPTH, SEED = map(int, sys.argv[2:5])
    rnd = random.Random(f"{q}{SEED}")
    for it in range(N):
        nf, ex, ds = f.node, [], []
        for k in range(rnd.randint(1, DEPTH)):
            vs = list(refactor.variants(nf, f.cls.name if f.cls else None))
            kinds = collections.defaultdict(list)
            for v in vs: kinds[v[0].split('@')[0].split(':')[0]].append(v)
            if not kinds: break
            d, nf2, extra = rnd.choice(kinds[rnd.choice(sorted(kinds))])
            extra = [(w, run_multi.suffix(fd, k)) for w, fd in extra]
            nf, ex = run_multi.suffix(nf2, k), ex + extra
            ds.append(d)
        if any(undefined(fd, f.module) for _, fd in ex): continue
        try:
            src = ast.unparse(nf) + ''.join('\n' + ast.unparse(ast.fix_missing_locations(fd)) for _, fd in ex)
            t0 = time.time()
            v = verdict(f, nf, ex)
        except SyntaxError: continue
        out.append((q, ' | '.join(ds), v.status, v.why, v.describe(), src, time.time() - t0))
    return out

def same(q):
    c = comparer.Comparer(REF, R.prog)
    v = c.check(q)
    return [(q, '', v.status, v.why, v.describe(), '', 0)]

if __name__ == '__main__':
    if mode == 'same': qs = [f.qual for f in REF.all_funcs() if not f.setter]
    else: qs = [f.qual for f in R.relevant() if not f.setter]
    t = time.time()
    with Pool(8) as p:
        res = [r for rs in p.imap_unordered({'same': same, 'mut': mut, 'multi': multi}[mode], qs, chunksize=1) for r in rs]
    pickle.dump(res, open(f'/tmp/cmp_{mode}.pkl', 'wb'))
    print(len(res), round(time.time() - t), 's', collections.Counter(r[2] for r in res))
    if mode == 'mut':
        c = collections.Counter((r[1].split('@')[0], r[2]) for r in res)
        for k in sorted({k for k, _ in c}): print(k, {s: c[k, s] for s in ('same', 'changed', 'undecided', 'gone') if c[k, s]})
    print('slowest', sorted(((round(r[6], 1), r[0]) for r in res), reverse=True)[:3])
