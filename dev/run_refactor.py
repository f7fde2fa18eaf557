import sys, ast, copy, time, collections, pickle, os
sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/dev')
from csslint.model import Program
from csslint import flow, compare
import refactor
from multiprocessing import Pool

prog = Program('/repo')
SKIP = ('comb_spec_searcher/specification_drawer.py', 'comb_spec_searcher/exception.py')

def relevant():
    out = []
    for f in prog.all_funcs():
        if f.module.startswith(SKIP) or f.name in ('__str__', '__repr__', 'status', 'formal_step'):
            continue
        out.append(f)
    return out

def build(rel, f, newfn, extra):
    tree = prog.modules[rel]
    body = []
    for n in tree.body:
        if f.cls is None and n is f.node:
            body.append(newfn); body.extend(fd for w, fd in extra)
        elif f.cls is not None and n is f.cls.node:
            c = copy.copy(n)
            c.body = []
            for m in n.body:
                if m is f.node:
                    c.body.append(newfn)
                    c.body.extend(fd for w, fd in extra if w == 'class')
                else:
                    c.body.append(m)
            body.append(c)
            body.extend(fd for w, fd in extra if w == 'module')
        else:
            body.append(n)
    t = ast.Module(body=body, type_ignores=[])
    ast.fix_missing_locations(t)
    return t

def work(q):
    f = prog.get(q)
    res = []
    try:
        base = compare.Norm(flow.analyse(prog, f))
    except Exception as e:
        return [(q, 'BASE', 'ERR ' + repr(e), '')]
    for desc, nf, extra in refactor.variants(f.node, f.cls.name if f.cls else None):
        try:
            t = build(f.module, f, nf, extra)
            src = ast.unparse(nf) + ''.join('\n' + ast.unparse(ast.fix_missing_locations(fd)) for _, fd in extra)
            compile(ast.unparse(t), 'x', 'exec')
        except SyntaxError as e:
            res.append((q, desc, 'BADSRC ' + str(e), '')); continue
        except Exception as e:
            res.append((q, desc, 'BADSRC ' + repr(e), '')); continue
        trees = dict(prog.modules); trees[f.module] = ast.parse(ast.unparse(t))
        p2 = Program(None, trees)
        g = p2.get(q)
        new = {x for x in p2.inventory() if x not in INV}
        try:
            cur = compare.Norm(flow.analyse(p2, g, new))
        except Exception as e:
            res.append((q, desc, 'ERR ' + repr(e)[:80], src)); continue
        ok = compare.equal_tables(base.table, cur.table)
        if not ok:
            m = compare.align_locs(base, cur)
            ok = compare.equal_tables(base.table, cur.renamed(m))
        if ok:
            res.append((q, desc, 'same', ''))
        else:
            a = [repr(base.fact_of[k]) for k in base.table if k not in cur.table or cur.table[k] != base.table[k]]
            b = [repr(cur.fact_of[k]) for k in cur.table if k not in base.table or cur.table[k] != base.table[k]]
            res.append((q, desc, 'DIFF', src + '\n--- ref only\n' + '\n'.join(a) + '\n--- cur only\n' + '\n'.join(b)))
    return res

INV = prog.inventory()
if __name__ == '__main__':
    qs = [f.qual for f in relevant() if not f.setter]
    want = sys.argv[1:]
    if want: qs = [q for q in qs if q in want]
    t = time.time()
    with Pool(8) as p:
        allres = [r for rs in p.imap_unordered(work, qs, chunksize=2) for r in rs]
    pickle.dump(allres, open('/tmp/refres.pkl', 'wb'))
    kinds = collections.Counter(); bad = collections.Counter()
    for q, d, r, s in allres:
        k = d.split('@')[0].split(':')[0]
        kinds[k] += 1
        if r != 'same': bad[k + ' ' + r.split()[0]] += 1
    print(len(allres), 'variants', sum(bad.values()), 'not same', time.time() - t)
    for k, n in bad.most_common(): print('  ', k, n, '/', kinds[k.split()[0]])
