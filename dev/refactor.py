"""Behaviour keeping edits of one function (development aid, not a check)."""
import ast, copy, itertools

PUREISH = (ast.Name, ast.Attribute, ast.Constant)


def names_load(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def names_store(n):
    out = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
    return out


def has(n, *types):
    return any(isinstance(x, types) for x in ast.walk(n))


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.UnaryOp(op=ast.Not(), operand=e)


def blocks(fn):
    """(list, path) for each statement list in fn"""
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def isnested(fn, n):
    for x in ast.walk(fn):
        if x is not fn and isinstance(x, (ast.FunctionDef, ast.Lambda)):
            if any(y is n for y in ast.walk(x)):
                return True
    return False


def terminates(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def name(i, ctx=None):
    return ast.Name(id=i, ctx=ctx or ast.Load())


class Site:
    pass


def variants(fn, clsname):
    """Yield (description, new function, [extra functions]) ; fn is deep copied per variant."""

    def fresh():
        return copy.deepcopy(fn)

    nblocks = len(list(blocks(fn)))
    returns_value = any(isinstance(x, ast.Return) and x.value is not None for x in ast.walk(fn))
    isgen = has(fn, ast.Yield, ast.YieldFrom)
    # statement level
    for bi in range(nblocks):
        n0 = len(list(blocks(fn))[bi][2])
        for si in range(n0):
            def get():
                f = fresh()
                owner, field, b = list(blocks(f))[bi]
                return f, owner, field, b

            f, owner, field, b = get()
            s = b[si]
            last = si == n0 - 1
            # R24 no-op
            f2, o2, fl2, b2 = get()
            if not (si == 0 and isinstance(b2[0], ast.Expr) and isinstance(b2[0].value, ast.Constant)):
                b2.insert(si, ast.parse("_ = 0").body[0])
                yield f"noop@{s.lineno}", f2, []
            f, owner, field, b = get(); s = b[si]
            if isinstance(s, ast.If):
                if s.orelse:
                    f, owner, field, b = get(); s = b[si]
                    s.test, s.body, s.orelse = neg(s.test), s.orelse, s.body
                    yield f"invert@{s.lineno}", f, []
                    if terminates(s.orelse):  # original body terminates
                        f, owner, field, b = get(); s = b[si]
                        rest = s.orelse; s.orelse = []
                        b[si + 1:si + 1] = rest
                        yield f"unelse@{s.lineno}", f, []
                else:
                    if terminates(s.body) and not last:
                        f, owner, field, b = get(); s = b[si]
                        s.orelse = b[si + 1:]
                        del b[si + 1:]
                        yield f"addelse@{s.lineno}", f, []
                        f, owner, field, b = get(); s = b[si]
                        rest = b[si + 1:]
                        del b[si + 1:]
                        s.test, s.body, s.orelse = neg(s.test), rest, s.body
                        yield f"addelseinv@{s.lineno}", f, []
                    if last and isinstance(owner, (ast.For, ast.While)) and field == "body":
                        f, owner, field, b = get(); s = b[si]
                        body = s.body
                        b[si] = ast.If(test=neg(s.test), body=[ast.Continue()], orelse=[])
                        b[si].lineno = s.lineno
                        b.extend(body)
                        yield f"contguard@{s.lineno}", f, []
                    if last and owner is f and not returns_value:
                        f, owner, field, b = get(); s = b[si]
                        body = s.body
                        b[si] = ast.If(test=neg(s.test), body=[ast.Return(value=None)], orelse=[])
                        b.extend(body)
                        yield f"retguard@{s.lineno}", f, []
                if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse:
                    f, owner, field, b = get(); s = b[si]
                    inner = ast.If(test=s.test.values[-1], body=s.body, orelse=[])
                    rest = s.test.values[:-1]
                    s.test = rest[0] if len(rest) == 1 else ast.BoolOp(op=ast.And(), values=rest)
                    s.body = [inner]
                    yield f"nest@{s.lineno}", f, []
                # test to temp
                f, owner, field, b = get(); s = b[si]
                if not has(s.test, ast.NamedExpr) and not _is_elif(f, s):
                    b.insert(si, ast.Assign(targets=[name("cond_", ast.Store())], value=s.test))
                    s.test = name("cond_")
                    yield f"condtemp@{s.lineno}", f, []
                # if c: x=a else: x=b -> ternary
                if len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) \
                        and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
                    f, owner, field, b = get(); s = b[si]
                    b[si] = ast.Assign(targets=s.body[0].targets, value=ast.IfExp(test=s.test, body=s.body[0].value, orelse=s.orelse[0].value))
                    yield f"toternary@{s.lineno}", f, []
                if len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value is not None:
                    if not s.orelse and not last and isinstance(b[si + 1], ast.Return) and b[si + 1].value is not None:
                        f, owner, field, b = get(); s = b[si]
                        b[si] = ast.Return(value=ast.IfExp(test=s.test, body=s.body[0].value, orelse=b[si + 1].value))
                        del b[si + 1]
                        yield f"retternary@{s.lineno}", f, []
            f, owner, field, b = get(); s = b[si]
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                f, owner, field, b = get(); s = b[si]
                v = s.value
                s1 = copy.deepcopy(s); s1.value = v.body
                s2 = copy.deepcopy(s); s2.value = v.orelse
                b[si] = ast.If(test=v.test, body=[s1], orelse=[s2])
                yield f"fromternary@{s.lineno}", f, []
            f, owner, field, b = get(); s = b[si]
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
                f, owner, field, b = get(); s = b[si]
                b[si:si + 1] = [ast.Assign(targets=[name("result_", ast.Store())], value=s.value), ast.Return(value=name("result_"))]
                yield f"rettemp@{s.lineno}", f, []
            f, owner, field, b = get(); s = b[si]
            if isinstance(s, ast.While) and not s.orelse:
                f, owner, field, b = get(); s = b[si]
                if not (isinstance(s.test, ast.Constant)):
                    s.body.insert(0, ast.If(test=neg(s.test), body=[ast.Break()], orelse=[]))
                    s.test = ast.Constant(value=True)
                    yield f"whiletrue@{s.lineno}", f, []
                elif isinstance(s.body[0], ast.If) and not s.body[0].orelse and len(s.body[0].body) == 1 and isinstance(s.body[0].body[0], ast.Break):
                    s.test = neg(s.body[0].test)
                    del s.body[0]
                    if s.body:
                        yield f"unwhiletrue@{s.lineno}", f, []
            # comprehension to loop
            f, owner, field, b = get(); s = b[si]
            if isinstance(s, (ast.Assign, ast.Return, ast.AnnAssign, ast.Expr)) and s.value is not None:
                v = s.value
                comp = v
                wrap = None
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("tuple", "list", "set", "sum", "any", "all", "sorted", "frozenset", "Counter", "dict") and len(v.args) == 1 and not v.keywords and isinstance(v.args[0], (ast.GeneratorExp, ast.ListComp)):
                    comp = v.args[0]; wrap = v.func.id
                if isinstance(comp, (ast.ListComp, ast.SetComp, ast.DictComp)) or (wrap and isinstance(comp, ast.GeneratorExp)):
                    bound = set()
                    for g in comp.generators:
                        bound |= names_store(g.target)
                    others = set()
                    for x in ast.walk(fn):
                        if isinstance(x, ast.Name) and x.id in bound:
                            others.add(x)
                    incomp = sum(1 for x in ast.walk(comp) if isinstance(x, ast.Name) and x.id in bound)
                    f, owner, field, b = get(); s = b[si]
                    v = s.value
                    comp = v.args[0] if wrap else v
                    ren = {n: n + "_c" for n in bound}
                    comp = _rename(comp, ren)
                    acc = "acc_"
                    if wrap in (None, "tuple", "list", "sorted", "frozenset", "dict", "Counter"):
                        if isinstance(comp, (ast.ListComp, ast.GeneratorExp)):
                            init = ast.List(elts=[], ctx=ast.Load())
                            step = ast.Expr(ast.Call(func=ast.Attribute(value=name(acc), attr="append", ctx=ast.Load()), args=[comp.elt], keywords=[]))
                        elif isinstance(comp, ast.SetComp):
                            init = ast.parse("set()").body[0].value
                            step = ast.Expr(ast.Call(func=ast.Attribute(value=name(acc), attr="add", ctx=ast.Load()), args=[comp.elt], keywords=[]))
                        else:
                            init = ast.Dict(keys=[], values=[])
                            step = ast.Assign(targets=[ast.Subscript(value=name(acc), slice=comp.key, ctx=ast.Store())], value=comp.value)
                        final = name(acc)
                        if wrap in ("tuple", "sorted", "frozenset", "dict", "Counter"):
                            final = ast.Call(func=name(wrap), args=[final], keywords=[])
                    elif wrap == "set":
                        init = ast.parse("set()").body[0].value
                        step = ast.Expr(ast.Call(func=ast.Attribute(value=name(acc), attr="add", ctx=ast.Load()), args=[comp.elt], keywords=[]))
                        final = name(acc)
                    elif wrap == "sum":
                        init = ast.Constant(value=0)
                        step = ast.AugAssign(target=name(acc, ast.Store()), op=ast.Add(), value=comp.elt)
                        final = name(acc)
                    else:
                        init = ast.Constant(value=wrap == "all")
                        t = comp.elt if wrap == "any" else neg(comp.elt)
                        step = ast.If(test=t, body=[ast.Assign(targets=[name(acc, ast.Store())], value=ast.Constant(value=wrap == "any"))] + ([ast.Break()] if len(comp.generators) == 1 else []), orelse=[])
                        final = name(acc)
                    body = [step]
                    for g in reversed(comp.generators):
                        for c in reversed(g.ifs):
                            body = [ast.If(test=c, body=body, orelse=[])]
                        body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
                    s.value = final
                    b[si:si] = [ast.Assign(targets=[name(acc, ast.Store())], value=init)] + body
                    yield f"uncomp@{s.lineno}", f, []
                    if wrap in ("any", "all") and isinstance(s, ast.Return) and not isgen:
                        f, owner, field, b = get(); s = b[si]
                        comp = _rename(s.value.args[0], ren)
                        t = comp.elt if wrap == "any" else neg(comp.elt)
                        body = [ast.If(test=t, body=[ast.Return(value=ast.Constant(value=wrap == "any"))], orelse=[])]
                        for g in reversed(comp.generators):
                            for c in reversed(g.ifs):
                                body = [ast.If(test=c, body=body, orelse=[])]
                            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
                        b[si:si + 1] = body + [ast.Return(value=ast.Constant(value=wrap == "all"))]
                        yield f"unquant@{s.lineno}", f, []
            # loop to comprehension
            f, owner, field, b = get(); s = b[si]
            if isinstance(s, ast.For) and not s.orelse:
                # for x in it: list(it)
                f, owner, field, b = get(); s = b[si]
                inner = s.body
                # for k, v in d.items()
                if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "items" and not s.iter.args and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and isinstance(s.target.elts[0], ast.Name):
                    k, v = s.target.elts
                    d = s.iter.func.value
                    s.target = k
                    s.iter = d
                    s.body.insert(0, ast.Assign(targets=[v], value=ast.Subscript(value=copy.deepcopy(d), slice=name(k.id), ctx=ast.Load())))
                    if isinstance(d, (ast.Name, ast.Attribute)):
                        yield f"unitems@{s.lineno}", f, []
                f, owner, field, b = get(); s = b[si]
                if isinstance(s.target, ast.Tuple):
                    els = s.target.elts
                    new = ast.Assign(targets=[ast.Tuple(elts=els, ctx=ast.Store())], value=name("item_"))
                    s.target = name("item_", ast.Store())
                    s.body.insert(0, new)
                    yield f"unpackbody@{s.lineno}", f, []
                # enumerate
                f, owner, field, b = get(); s = b[si]
                if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate" and len(s.iter.args) == 1 and isinstance(s.iter.args[0], (ast.Name, ast.Attribute)) and isinstance(s.target, ast.Tuple):
                    i, x = s.target.elts
                    it = s.iter.args[0]
                    s.iter = ast.parse("range(len(Q))").body[0].value
                    s.iter.args[0].args[0] = it
                    s.target = i
                    s.body.insert(0, ast.Assign(targets=[x], value=ast.Subscript(value=copy.deepcopy(it), slice=name(i.id), ctx=ast.Load())))
                    yield f"unenum@{s.lineno}", f, []
                f, owner, field, b = get(); s = b[si]
                if not isinstance(s.iter, ast.Name):
                    b.insert(si, ast.Assign(targets=[name("iter_", ast.Store())], value=s.iter))
                    s.iter = name("iter_")
                    yield f"itertemp@{s.lineno}", f, []
                # if at the loop top as filter
                f, owner, field, b = get(); s = b[si]
                if len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and isinstance(s.target, (ast.Name,)) and not has(s.body[0].test, ast.NamedExpr):
                    nm = s.target.id
                    g = ast.GeneratorExp(elt=name(nm), generators=[ast.comprehension(target=name(nm, ast.Store()), iter=s.iter, ifs=[s.body[0].test], is_async=0)])
                    s.iter = g
                    s.body = s.body[0].body
                    if not _mutates(s.body):
                        yield f"filtergen@{s.lineno}", f, []
            f, owner, field, b = get(); s = b[si]
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub, ast.Mult)) and isinstance(s.value, ast.Constant):
                f, owner, field, b = get(); s = b[si]
                b[si] = ast.Assign(targets=[s.target], value=ast.BinOp(left=name(s.target.id), op=s.op, right=s.value))
                yield f"unaug@{s.lineno}", f, []
            f, owner, field, b = get(); s = b[si]
            if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Attribute, ast.Subscript)) and isinstance(s.op, (ast.Add, ast.Sub, ast.Mult)) and isinstance(s.value, ast.Constant):
                f, owner, field, b = get(); s = b[si]
                t2 = copy.deepcopy(s.target); t2.ctx = ast.Load()
                b[si] = ast.Assign(targets=[s.target], value=ast.BinOp(left=t2, op=s.op, right=s.value))
                yield f"unaug2@{s.lineno}", f, []
            f, owner, field, b = get(); s = b[si]
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom):
                f, owner, field, b = get(); s = b[si]
                b[si] = ast.For(target=name("y_", ast.Store()), iter=s.value.value, body=[ast.Expr(ast.Yield(value=name("y_")))], orelse=[])
                yield f"unyieldfrom@{s.lineno}", f, []
            f, owner, field, b = get(); s = b[si]
            if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Yield) and isinstance(s.target, ast.Name):
                f, owner, field, b = get(); s = b[si]
                b[si] = ast.Expr(ast.YieldFrom(value=ast.GeneratorExp(elt=s.body[0].value.value, generators=[ast.comprehension(target=s.target, iter=s.iter, ifs=[], is_async=0)])))
                yield f"toyieldfrom@{s.lineno}", f, []
            f, owner, field, b = get(); s = b[si]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and not any(isinstance(e, ast.Starred) for e in s.targets[0].elts):
                f, owner, field, b = get(); s = b[si]
                els = s.targets[0].elts
                if isinstance(s.value, ast.Tuple):
                    pass
                else:
                    new = [ast.Assign(targets=[name("pair_", ast.Store())], value=s.value)]
                    for i, e in enumerate(els):
                        new.append(ast.Assign(targets=[e], value=ast.Subscript(value=name("pair_"), slice=ast.Constant(value=i), ctx=ast.Load())))
                    b[si:si + 1] = new
                    yield f"ununpack@{s.lineno}", f, []
            # inline single use temp assigned just before
            f, owner, field, b = get(); s = b[si]
            f, owner, field, b = get(); s = b[si]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not last:
                nm = s.targets[0].id
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == nm]
                f, owner, field, b = get(); s = b[si]
                nxt = b[si + 1]
                if len(uses) == 2 and isinstance(nxt, (ast.Assign, ast.Return, ast.Expr, ast.If, ast.For, ast.AnnAssign)):
                    tgt = nxt.test if isinstance(nxt, ast.If) else nxt.iter if isinstance(nxt, ast.For) else nxt.value
                    if tgt is not None and any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(tgt)) and not has(tgt, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Yield):
                        val = s.value
                        _subst(nxt, nm, val)
                        del b[si]
                        yield f"inlinetemp@{s.lineno}", f, []
            # swap independent neighbours
            f, owner, field, b = get(); s = b[si]
            if not last and isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(b[si + 1], (ast.Assign, ast.AnnAssign)):
                f, owner, field, b = get()
                s, t = b[si], b[si + 1]
                if _independent(s, t):
                    b[si], b[si + 1] = t, s
                    yield f"swap@{s.lineno}", f, []
            # expression extraction
            f, owner, field, b = get(); s = b[si]
            f, owner, field, b = get(); s = b[si]
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Expr, ast.Return, ast.AugAssign)) and s.value is not None:
                f, owner, field, b = get(); s = b[si]
                k = 0
                while True:
                    f, owner, field, b = get(); s = b[si]
                    cands = list(_extractable(s.value))
                    if k >= len(cands) or k > 8:
                        break
                    parent, fld, idx, node = cands[k]
                    k += 1
                    if idx is None:
                        setattr(parent, fld, name("tmp_"))
                    else:
                        getattr(parent, fld)[idx] = name("tmp_")
                    b.insert(si, ast.Assign(targets=[name("tmp_", ast.Store())], value=node))
                    yield f"extract@{s.lineno}:{ast.unparse(node)[:30]}", f, []
            # helper method from a run of statements
            if clsname is not None or True:
                for ln in (1, 2, 3):
                    if si + ln > n0:
                        continue
                    f, owner, field, b = get()
                    run = b[si:si + ln]
                    h = _helper(f, run, clsname, fn)
                    if h is None:
                        continue
                    call, extra = h
                    b[si:si + ln] = call
                    yield f"helper{ln}@{run[0].lineno}", f, [extra]
                f, owner, field, b = get(); s = b[si]
                if isinstance(s, (ast.Return, ast.Assign, ast.AnnAssign)) and s.value is not None and has(s.value, ast.Call):
                    h = _helper_expr(f, s.value, clsname, fn)
                    if h is not None:
                        s.value, extra = h
                        yield f"helperx@{s.lineno}", f, [extra]
                if isinstance(s, ast.If) and has(s.test, ast.BoolOp, ast.Call):
                    h = _helper_expr(f, s.test, clsname, fn, "bool")
                    if h is not None:
                        s.test, extra = h
                        yield f"helpertest@{s.lineno}", f, [extra]
    # expression level
    def exprs(f):
        return [x for x in ast.walk(f)]

    N = len(exprs(fn))
    for i, x in enumerate(exprs(fn)):
        if isinstance(x, ast.BoolOp) and _boolctx(fn, x):
            f = fresh(); y = exprs(f)[i]
            op = ast.Or() if isinstance(y.op, ast.And) else ast.And()
            new = ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=op, values=[neg(v) for v in y.values]))
            if _replace(f, y, new):
                yield f"demorgan@{x.lineno}", f, []
        if isinstance(x, ast.Compare):
            if len(x.ops) == 1:
                f = fresh(); y = exprs(f)[i]
                flips = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
                t = flips.get(type(y.ops[0]))
                if t:
                    y.left, y.comparators[0], y.ops[0] = y.comparators[0], y.left, t()
                    yield f"flip@{x.lineno}", f, []
                negs = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}
                f = fresh(); y = exprs(f)[i]
                t = negs.get(type(y.ops[0]))
                if t:
                    new = copy.deepcopy(y); new.ops = [t()]
                    if _replace(f, y, ast.UnaryOp(op=ast.Not(), operand=new)):
                        yield f"negcmp@{x.lineno}", f, []
            elif len(x.ops) == 2:
                f = fresh(); y = exprs(f)[i]
                new = ast.BoolOp(op=ast.And(), values=[
                    ast.Compare(left=y.left, ops=[y.ops[0]], comparators=[y.comparators[0]]),
                    ast.Compare(left=y.comparators[0], ops=[y.ops[1]], comparators=[y.comparators[1]])])
                if _replace(f, y, new):
                    yield f"unchain@{x.lineno}", f, []
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not) and isinstance(x.operand, ast.Call) and isinstance(x.operand.func, ast.Name) and x.operand.func.id in ("any", "all"):
            f = fresh(); y = exprs(f)[i]
            c = y.operand
            if len(c.args) == 1 and isinstance(c.args[0], (ast.GeneratorExp, ast.ListComp)):
                c.func.id = "all" if c.func.id == "any" else "any"
                c.args[0].elt = neg(c.args[0].elt)
                if _replace(f, y, c):
                    yield f"quantdual@{x.lineno}", f, []
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "map" and len(x.args) == 2:
            f = fresh(); y = exprs(f)[i]
            new = ast.GeneratorExp(elt=ast.Call(func=y.args[0], args=[name("m_")], keywords=[]), generators=[ast.comprehension(target=name("m_", ast.Store()), iter=y.args[1], ifs=[], is_async=0)])
            if _replace(f, y, new):
                yield f"unmap@{x.lineno}", f, []
        if isinstance(x, ast.GeneratorExp):
            f = fresh(); y = exprs(f)[i]
            new = ast.ListComp(elt=y.elt, generators=y.generators)
            if _replace(f, y, new):
                yield f"genlist@{x.lineno}", f, []
    # rename the locals
    f = fresh()
    params = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    if fn.args.vararg: params.add(fn.args.vararg.arg)
    if fn.args.kwarg: params.add(fn.args.kwarg.arg)
    stores = names_store(fn) - params
    nested = {x.name for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and x is not fn}
    glob = {n for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
    ren = {n: "zz_" + n for n in stores - glob}
    if ren and not nested and not has(fn, ast.Lambda):
        yield "renamelocals", _rename(f, ren), []
    # alias of self.x
    attrs = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
            attrs.setdefault(x.attr, []).append(x)
    called = {x.func.attr for x in ast.walk(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
    for a, xs in sorted(attrs.items()):
        if len(xs) < 2 or any(not isinstance(x.ctx, ast.Load) for x in xs) or a in called:
            continue
        f = fresh()

        class V(ast.NodeTransformer):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                if isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr == a:
                    return name("al_")
                return n

        V().visit(f)
        pos = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(pos, ast.Assign(targets=[name("al_", ast.Store())], value=ast.Attribute(value=name("self"), attr=a, ctx=ast.Load())))
        yield f"alias:{a}", f, []


def _is_elif(f, s):
    for x in ast.walk(f):
        if isinstance(x, ast.If) and len(x.orelse) == 1 and x.orelse[0] is s:
            return False
    return False


def _mutates(body):
    return any(isinstance(x, (ast.Delete,)) for s in body for x in ast.walk(s))


def _boolctx(fn, x):
    for p in ast.walk(fn):
        if isinstance(p, (ast.If, ast.While, ast.IfExp)) and p.test is x:
            return True
        if isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Not) and p.operand is x:
            return True
        if isinstance(p, ast.comprehension) and any(c is x for c in p.ifs):
            return True
    return False


def _rename(f, ren):
    class V(ast.NodeTransformer):
        def visit_Name(self, n):
            if n.id in ren:
                n.id = ren[n.id]
            return n

    return V().visit(f)


def _subst(node, nm, val):
    class V(ast.NodeTransformer):
        def visit_Name(self, n):
            if n.id == nm and isinstance(n.ctx, ast.Load):
                return val
            return n

    V().visit(node)


def _replace(f, old, new):
    done = []

    class V(ast.NodeTransformer):
        def visit(self, n):
            if n is old:
                done.append(1)
                return new
            return self.generic_visit(n)

    V().visit(f)
    return bool(done)


def _pure(e):
    return not has(e, ast.Call, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await)


def _independent(s, t):
    def tg(s):
        ts = s.targets if isinstance(s, ast.Assign) else [s.target]
        return ts

    if s.value is None or t.value is None:
        return False
    ns = set().union(*(names_store(x) for x in tg(s)))
    nt = set().union(*(names_store(x) for x in tg(t)))
    as_ = {x.attr for y in tg(s) for x in ast.walk(y) if isinstance(x, ast.Attribute)}
    at = {x.attr for y in tg(t) for x in ast.walk(y) if isinstance(x, ast.Attribute)}
    ls, lt = names_load(s), names_load(t)
    if ns & (nt | lt) or nt & ls:
        return False
    if as_ & at:
        return False
    alls = {x.attr for x in ast.walk(s) if isinstance(x, ast.Attribute)}
    allt = {x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute)}
    if as_ & allt or at & alls:
        return False
    if not _pure(s.value) and not _pure(t.value):
        return False
    if (as_ and not _pure(t.value)) or (at and not _pure(s.value)):
        return False
    return True


def _extractable(root):
    """(parent, field, index, node) of calls/attributes always evaluated"""
    out = []

    def rec(parent, fld, idx, n):
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.IfExp, ast.BoolOp, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Starred, ast.JoinedStr)):
            if isinstance(n, (ast.Yield,)) and n.value is not None:
                rec(n, "value", None, n.value)
            return
        if parent is not None and isinstance(n, (ast.Call, ast.Subscript, ast.BinOp, ast.Attribute)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
            if not (fld == "func" and isinstance(n, ast.Attribute)) and not isinstance(n, ast.Name):
                out.append((parent, fld, idx, n))
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.expr):
                rec(n, f, None, v)
            elif isinstance(v, list):
                for i, w in enumerate(v):
                    if isinstance(w, ast.expr):
                        rec(n, f, i, w)
                    elif isinstance(w, ast.keyword):
                        rec(w, "value", None, w.value)

    rec(None, None, None, root)
    return [o for o in out if not has(o[3], ast.Yield, ast.YieldFrom)]


def _locals(fn):
    params = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    if fn.args.vararg: params.add(fn.args.vararg.arg)
    if fn.args.kwarg: params.add(fn.args.kwarg.arg)
    nested = {x.name for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and x is not fn}
    imps = {a.asname or a.name for x in ast.walk(fn) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
    return params | names_store(fn) | nested | imps


def _helper(f, run, clsname, orig):
    for s in run:
        if has(s, ast.Return, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.FunctionDef, ast.Import, ast.ImportFrom):
            return None
        for x in ast.walk(s):
            if isinstance(x, (ast.Break, ast.Continue)):
                if not any(isinstance(l, (ast.For, ast.While)) and any(y is x for y in ast.walk(l)) for l in ast.walk(s)):
                    return None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super":
                return None
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return None
        if isinstance(s, (ast.Pass, ast.Continue, ast.Break, ast.Assert)):
            return None
    if isnested(f, run[0]):
        return None
    loc = _locals(orig)
    stored = set().union(*(names_store(s) for s in run))
    for s in run:
        for x in ast.walk(s):
            if isinstance(x, ast.comprehension):
                stored -= names_store(x.target)
    # stored names used outside the run
    inside = {id(x) for s in run for x in ast.walk(s)}
    outside = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and id(x) not in inside}
    outs = sorted(stored & outside)
    if len(outs) > 1:
        return None
    free = set()
    for s in run:
        free |= {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
    free &= loc
    compv = set()
    for s in run:
        for x in ast.walk(s):
            if isinstance(x, ast.comprehension):
                compv |= names_store(x.target)
    args = sorted((free - compv) - {"self", "cls"})
    # args must be assigned before: only those bound before the run
    before = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
    if f.args.vararg: before.add(f.args.vararg.arg)
    if f.args.kwarg: before.add(f.args.kwarg.arg)
    firstline = run[0].lineno
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in inside and getattr(x, "lineno", 0) < firstline:
            before.add(x.id)
        if isinstance(x, ast.FunctionDef) and x is not f:
            before.add(x.name)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names: before.add(a.asname or a.name)
    # names bound by comprehension anywhere are not before
    args = [a for a in args if a in before]
    if outs and outs[0] not in before:
        # must be assigned on all paths: only accept direct assignment in the run
        if not any(isinstance(s, (ast.Assign, ast.AnnAssign)) and outs[0] in names_store(s) for s in run):
            return None
    usesself = "self" in free
    hname = "_extracted_helper"
    body = list(run)
    if outs:
        body.append(ast.Return(value=name(outs[0])))
    return _mkhelper(hname, args, body, usesself, outs, clsname, f)


def _mkhelper(hname, args, body, usesself, outs, clsname, f):
    a = ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in args], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
    decos = []
    if clsname and usesself:
        a.args.insert(0, ast.arg(arg="self"))
        func = ast.Attribute(value=name("self"), attr=hname, ctx=ast.Load())
        where = "class"
    else:
        func = name(hname)
        where = "module"
    fd = ast.FunctionDef(name=hname, args=a, body=body, decorator_list=decos, returns=None)
    call = ast.Call(func=func, args=[name(x) for x in args], keywords=[])
    if outs:
        st = [ast.Assign(targets=[name(outs[0], ast.Store())], value=call)]
    else:
        st = [ast.Expr(call)]
    return st, (where, fd)


def _helper_expr(f, e, clsname, orig, ret=None):
    if has(e, ast.Yield, ast.YieldFrom, ast.NamedExpr) or isnested(f, e):
        return None
    for x in ast.walk(e):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super":
            return None
    loc = _locals(orig)
    compv = set()
    for x in ast.walk(e):
        if isinstance(x, ast.comprehension):
            compv |= names_store(x.target)
        if isinstance(x, ast.Lambda):
            compv |= {p.arg for p in x.args.args}
    free = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)} & loc
    args = sorted(free - compv - {"self", "cls"})
    if "cls" in free:
        return None
    st, extra = _mkhelper("_extracted_helper", args, [ast.Return(value=e)], "self" in free, None, clsname, f)
    if ret:
        extra[1].returns = name(ret)
    return st[0].value, extra
