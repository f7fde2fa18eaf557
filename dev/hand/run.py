"""Hand written behaviour preserving rewrites: comparer verdicts.
Each file in this folder is a list of cases separated by '#### name | file'.
A case is a module fragment: classes with replaced/added methods and functions."""
import sys, ast, os, glob, copy, time
sys.path.insert(0, '/verif')
from csslint.model import Program
from csslint import comparer, main
from multiprocessing import Pool
sys.setrecursionlimit(20000)
REF = main.load_ref()
HERE = os.path.dirname(os.path.abspath(__file__))

def cases():
    for p in sorted(glob.glob(HERE + '/*.txt')):
        for part in open(p).read().split('#### ')[1:]:
            head, body = part.split('\n', 1)
            name, rel = [x.strip() for x in head.split('|')]
            yield os.path.basename(p), name, rel, body

def patch(tree, body):
    tree = copy.deepcopy(tree)
    frag = ast.parse(body)
    touched = []
    def put(where, f, prefix):
        for i, n in enumerate(where):
            if isinstance(n, ast.FunctionDef) and n.name == f.name and [ast.unparse(d) for d in n.decorator_list if 'setter' in ast.unparse(d)] == [ast.unparse(d) for d in f.decorator_list if 'setter' in ast.unparse(d)]:
                where[i] = f; touched.append(prefix + f.name); return
        where.append(f)
    for n in frag.body:
        if isinstance(n, ast.FunctionDef): put(tree.body, n, '')
        elif isinstance(n, ast.ClassDef):
            for c in ast.walk(tree):
                if isinstance(c, ast.ClassDef) and c.name == n.name:
                    for b in n.body:
                        if isinstance(b, ast.FunctionDef): put(c.body, b, n.name + '.')
                        elif isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) and str(b.value.value).startswith('del '):
                            d = b.value.value[4:]; c.body = [x for x in c.body if getattr(x, 'name', None) != d]
                        else: c.body.insert(0, b)
                    break
            else: tree.body.append(n)
        else:
            k = max((i for i, x in enumerate(tree.body) if isinstance(x, (ast.Import, ast.ImportFrom))), default=-1)
            tree.body.insert(k + 1, n)
    return ast.fix_missing_locations(tree), touched

def work(case):
    src, name, rel, body = case
    rel = 'comb_spec_searcher/' + rel
    t, touched = patch(REF.modules[rel], body)
    trees = dict(REF.modules); trees[rel] = ast.parse(ast.unparse(t))
    p2 = Program(None, trees)
    c = comparer.Comparer(REF, p2)
    out = []
    for f in REF.all_funcs():
        q = f.qual + ('.setter' if f.setter else '')
        v = c.check(q)
        if v.status != 'same' : out.append((q, v.status, v.describe()))
    for n in REF.classes:
        for w, l in c.check_class(n): out.append((n, 'changed', w))
        for v in c.new_dispatch(n):
            if v.status == 'changed': out.append((v.qual, 'changed', v.describe()))
    return src, name, touched, out

if __name__ == '__main__':
    cs = [c for c in cases() if not sys.argv[1:] or c[1] in sys.argv[1:] or c[0].split('.')[0] in sys.argv[1:]]
    with Pool(8) as p:
        for src, name, touched, out in p.imap(work, cs, chunksize=1):
            al = [o for o in out if o[1] == 'changed']
            print(('ALARM ' if al else 'ok    '), src, name, touched, [(o[0], o[1]) for o in out])
            for o in al:
                print('       ', o[2][:1500].replace('\n', '\n        '))
