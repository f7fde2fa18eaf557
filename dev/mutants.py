"""Single fault mutants of one function (recall measurement)."""
import ast, copy

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def mutants(fn):
    """Yield (desc, new FunctionDef)."""
    nodes = list(ast.walk(fn))

    def emit(desc, n, change):
        memo = {}
        new = copy.deepcopy(fn, memo)
        m = memo[id(n)]
        r = change(m)
        if r is False:
            return None
        ast.fix_missing_locations(new)
        return desc + "@" + str(getattr(n, "lineno", 0)), new

    out = []

    def add(*a):
        r = emit(*a)
        if r:
            out.append(r)

    doc = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef,)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0]))
        if isinstance(n, ast.JoinedStr):
            for x in ast.walk(n):
                doc.add(id(x))
        if isinstance(n, ast.Call) and ast.unparse(n.func).startswith("logger."):
            for x in ast.walk(n):
                doc.add(id(x))
        if isinstance(n, ast.Assert) or isinstance(n, ast.Raise):
            for x in ast.walk(n):
                doc.add(id(x))
        if isinstance(n, (ast.arguments,)):
            for x in ast.walk(n):
                doc.add(id(x))
        if isinstance(n, ast.AnnAssign):
            for x in ast.walk(n.annotation):
                doc.add(id(x))
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            for x in ast.walk(n.returns):
                doc.add(id(x))
    for n in nodes:
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            def ch(m):
                m.ops = [CMP[type(m.ops[0])]()]
            add("cmp", n, ch)
            if isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                def ch(m):
                    m.left, m.comparators = m.comparators[0], [m.left]
                add("cmpswap", n, ch)
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            def ch(m):
                m.value += 1
            add("const+1", n, ch)
            if n.value:
                def ch(m):
                    m.value -= 1
                add("const-1", n, ch)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            def ch(m):
                m.value = not m.value
            add("boolconst", n, ch)
        if isinstance(n, ast.BoolOp):
            def ch(m):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            add("andor", n, ch)
            for i in range(len(n.values)):
                def ch(m, i=i):
                    del m.values[i]
                    if len(m.values) == 1:
                        m.values = [m.values[0], ast.Constant(isinstance(m.op, ast.And))]
                add("droplit", n, ch)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            def ch(m):
                m.operand = ast.UnaryOp(ast.Not(), m.operand)
            add("dropnot", n, ch)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
            def ch(m):
                m.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add}[type(m.op)]()
            add("binop", n, ch)
        if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
            def ch(m):
                m.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add}[type(m.op)]()
            add("augop", n, ch)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            def ch(m):
                m.test = ast.UnaryOp(ast.Not(), m.test)
            add("negtest", n, ch)
            if isinstance(n, ast.If):
                def ch(m):
                    m.test = ast.Constant(True)
                add("iftrue", n, ch)
                def ch(m):
                    m.test = ast.Constant(False)
                add("iffalse", n, ch)
        if isinstance(n, ast.Call) and not n.keywords and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            def ch(m):
                m.args[0], m.args[1] = m.args[1], m.args[0]
                return None if ast.unparse(m.args[0]) != ast.unparse(m.args[1]) else False
            add("argswap", n, ch)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("sorted", "tuple", "list", "set", "all", "any", "min", "max", "reversed", "deepcopy", "copy") and n.args:
            alt = {"all": "any", "any": "all", "min": "max", "max": "min"}.get(n.func.id)
            def ch(m, alt=alt):
                m.func.id = alt or "_id"
            if alt:
                add("fnswap", n, ch)
        if isinstance(n, ast.Break):
            def ch(m):
                m.__class__ = ast.Continue
            add("break->continue", n, ch)
        if isinstance(n, ast.Continue):
            def ch(m):
                m.__class__ = ast.Break
            add("continue->break", n, ch)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value in (0, -1):
            pass
        if isinstance(n, (ast.comprehension,)) and n.ifs:
            def ch(m):
                m.ifs = []
            p = n
            memo = {}
            new = copy.deepcopy(fn, memo)
            memo[id(n)].ifs = []
            out.append(("dropif@" + str(n.target.lineno), ast.fix_missing_locations(new)))
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if not isinstance(b, list) or isinstance(n, ast.Lambda):
                continue
            for i, s in enumerate(b):
                if id(s) in doc or isinstance(s, (ast.FunctionDef, ast.Assert, ast.Pass)):
                    continue
                if isinstance(s, ast.Expr) and id(s.value) in doc:
                    continue
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Continue, ast.Break, ast.If, ast.For, ast.While, ast.Delete)):
                    # a removed binding of a local is an error, not a bug
                    if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
                        continue
                    def ch(m, fld=fld, i=i):
                        getattr(m, fld)[i] = ast.Pass()
                    add("del" + type(s).__name__, n, ch) if not isinstance(n, ast.ExceptHandler) else add("del" + type(s).__name__, n, ch)
            for i in range(len(b) - 1):
                s, t = b[i], b[i + 1]
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.For)) and isinstance(t, (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.For)) and id(s) not in doc:
                    def ch(m, fld=fld, i=i):
                        x = getattr(m, fld)
                        x[i], x[i + 1] = x[i + 1], x[i]
                    add("order", n, ch)
            if i >= 0 if b else False:
                pass
        if isinstance(n, ast.For):
            def ch(m):
                m.body.append(ast.Break())
            add("addbreak", n, ch)
            def ch(m):
                m.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [m.iter], []), ast.Slice(ast.Constant(1), None, None), ast.Load())
            add("skipfirst", n, ch)
    return out
