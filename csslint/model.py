"""The analysed program: modules, classes, functions, resolution of names."""

import ast
import os


class Func:
    def __init__(self, name, node, module, cls=None):
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls
        decos = []
        for d in node.decorator_list:
            decos.append(ast.unparse(d))
        self.decorators = decos
        self.kind = "method" if cls else "function"
        for d in decos:
            if d == "staticmethod":
                self.kind = "static"
            elif d == "classmethod":
                self.kind = "class"
            elif d in ("property", "abc.abstractproperty") or d.endswith(".setter"):
                self.kind = "property"
            elif d.endswith("cached_property"):
                self.kind = "property"
        self.setter = any(d.endswith(".setter") for d in decos)
        self.is_generator = _is_gen(node)
        self.is_abstract = any("abstract" in d for d in decos)

    @property
    def qual(self):
        return f"{self.cls.name}.{self.name}" if self.cls else self.name

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def lineno(self):
        return self.node.lineno


def _is_gen(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


class Cls:
    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.methods = {}
        self.attrs = {}
        self.bases = []
        for b in node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Attribute):
                self.bases.append(b.attr)
            elif isinstance(b, ast.Name):
                self.bases.append(b.id)


class Program:
    def __init__(self, root, trees=None):
        self.root = root
        self.modules = {}
        self.classes = {}
        self.funcs = {}  # module level functions by name
        self.imports = {}  # module -> local name -> dotted
        self.consts = {}  # module -> name -> ast expr
        self.errors = []
        self.extra_smeth = set()  # methods that are static in the other program
        if trees is None:
            trees = self.read(root)
        for rel, tree in trees.items():
            self.modules[rel] = tree
            self._load(rel, tree)
        self._subclasses = {}
        for c in self.classes.values():
            for b in c.bases:
                self._subclasses.setdefault(b, set()).add(c.name)
        self.by_method = {}
        for c in self.classes.values():
            for m in c.methods.values():
                self.by_method.setdefault(m.name, []).append(m)
        self.globalconsts = {}
        for rel in self.consts:
            for n, v in self.consts[rel].items():
                self.globalconsts[(rel, n)] = v

    def read(self, root):
        trees = {}
        pkg = os.path.join(root, "comb_spec_searcher")
        for dirpath, dirs, files in sorted(os.walk(pkg)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".py") or f.endswith(".py.txt"):
                    path = os.path.join(dirpath, f)
                    rel = os.path.relpath(path, root).replace(".py.txt", ".py")
                    try:
                        with open(path, encoding="utf8") as fh:
                            trees[rel] = ast.parse(fh.read(), rel)
                    except (SyntaxError, UnicodeDecodeError, ValueError) as e:
                        self.errors.append(f"{rel}: {e}")
        return trees

    def _load(self, rel, tree):
        imp = {}
        consts = {}

        def scan_imports(body):
            for n in body:
                if isinstance(n, ast.Import):
                    for a in n.names:
                        imp[a.asname or a.name.split(".")[0]] = (
                            a.name if a.asname else a.name.split(".")[0]
                        )
                elif isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        mod = n.module or ""
                        if mod.startswith("comb_spec_searcher") or n.level:
                            imp[a.asname or a.name] = a.name
                        else:
                            imp[a.asname or a.name] = f"{mod}.{a.name}"
                elif isinstance(n, ast.If):
                    scan_imports(n.body)
                    scan_imports(n.orelse)
                elif isinstance(n, ast.Try):
                    scan_imports(n.body)

        scan_imports(tree.body)
        self.imports[rel] = imp
        for n in tree.body:
            if isinstance(n, ast.ClassDef):
                self._load_class(n, rel)
            elif isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = Func(n.name, n, rel)
            elif isinstance(n, ast.Assign):
                if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    consts[n.targets[0].id] = n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                if isinstance(n.target, ast.Name):
                    consts[n.target.id] = n.value
        self.consts[rel] = consts

    def _load_class(self, n, rel):
        c = Cls(n.name, n, rel)
        for b in n.body:
            if isinstance(b, ast.FunctionDef):
                f = Func(b.name, b, rel, c)
                if f.setter:
                    c.methods[b.name + ".setter"] = f
                else:
                    c.methods[b.name] = f
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = b.value
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                c.attrs[e.id] = ("unpack", b.value, i)
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                if b.value is not None:
                    c.attrs[b.target.id] = b.value
            elif isinstance(b, ast.ClassDef):
                self._load_class(b, rel)
        self.classes[n.name] = c

    def mro(self, name, seen=None):
        """Linear list of package classes, left to right depth first."""
        out = []
        c = self.classes.get(name)
        if c is None:
            return out
        out.append(c)
        for b in c.bases:
            for x in self.mro(b):
                if x not in out:
                    out.append(x)
        return out

    def lookup(self, clsname, meth):
        for c in self.mro(clsname):
            if meth in c.methods:
                return c.methods[meth]
        return None

    def class_attr(self, clsname, name):
        for c in self.mro(clsname):
            if name in c.attrs:
                return c.attrs[name]
        return None

    def descendants(self, name):
        out = set()
        todo = [name]
        while todo:
            x = todo.pop()
            for y in self._subclasses.get(x, ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return out

    def all_funcs(self):
        for f in self.funcs.values():
            yield f
        for c in self.classes.values():
            yield from c.methods.values()

    def get(self, qual):
        if "." in qual:
            c, m = qual.split(".", 1)
            cls = self.classes.get(c)
            return cls.methods.get(m) if cls else None
        return self.funcs.get(qual)

    def inventory(self):
        return {f.qual + (".setter" if f.setter else "") for f in self.all_funcs()}


def _attr_assigned(self, n):
    """Is attribute n assigned in some function (so not a constant)?"""
    if not hasattr(self, "_assigned"):
        self._assigned = set()
        for tree in self.modules.values():
            for x in ast.walk(tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    self._assigned.add(x.attr)
    return n in self._assigned


def _set_attrs(self):
    """Attributes that hold sets (by annotation or initial value)."""
    if not hasattr(self, "_setattrs"):
        out = set()
        for tree in self.modules.values():
            for x in ast.walk(tree):
                tgt = val = ann = None
                if isinstance(x, ast.AnnAssign):
                    tgt, val, ann = x.target, x.value, x.annotation
                elif isinstance(x, ast.Assign) and len(x.targets) == 1:
                    tgt, val = x.targets[0], x.value
                if not isinstance(tgt, ast.Attribute):
                    continue
                if ann is not None and ast.unparse(ann).startswith(("Set[", "set")):
                    out.add(tgt.attr)
                if isinstance(val, ast.Call) and isinstance(val.func, ast.Name) and val.func.id == "set":
                    out.add(tgt.attr)
        self._setattrs = out
    return self._setattrs


def _attr_types(self):
    """Attribute name -> (container, value type may be None) where all annotations agree.

    container is 'dict', 'ddict', 'counter', 'list', 'set' or 'other'."""
    if hasattr(self, "_attrtypes"):
        return self._attrtypes
    seen = {}
    for tree in self.modules.values():
        for x in ast.walk(tree):
            tgt = val = ann = None
            if isinstance(x, ast.AnnAssign):
                tgt, val, ann = x.target, x.value, x.annotation
            elif isinstance(x, ast.Assign) and len(x.targets) == 1:
                tgt, val = x.targets[0], x.value
            if not (isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self"):
                continue
            seen.setdefault(tgt.attr, []).append((ann, val))
    params = {}
    for f in self.all_funcs():
        for a in f.node.args.args:
            if a.annotation is not None:
                params[(id(f.node), a.arg)] = a.annotation
    # self.x = x copies the annotation of the parameter
    for f in self.all_funcs():
        for x in ast.walk(f.node):
            if (
                isinstance(x, ast.Assign) and len(x.targets) == 1
                and isinstance(x.targets[0], ast.Attribute)
                and isinstance(x.value, ast.Name) and (id(f.node), x.value.id) in params
            ):
                lst = seen.get(x.targets[0].attr, [])
                for i, (a, v) in enumerate(lst):
                    if v is x.value:
                        lst[i] = (params[(id(f.node), x.value.id)], v)
    out = {}
    for n, lst in seen.items():
        kinds = {_kind_of(a, v) for a, v in lst}
        kinds.discard(None)
        if len(kinds) > 1 and {k[0] for k in kinds} == {"dict"} and not any(a for a, _ in lst):
            kinds = {("dict", False)} if any(not k[1] for k in kinds) else kinds
        if len(kinds) == 1:
            out[n] = kinds.pop()
    self._attrtypes = out
    return out


def _kind_of(ann, val):
    base, arg = None, None
    if ann is not None:
        if isinstance(ann, ast.Subscript):
            base = ast.unparse(ann.value).split(".")[-1]
            arg = ann.slice
            if isinstance(arg, ast.Tuple):
                arg = arg.elts[-1]
        else:
            base = ast.unparse(ann).split(".")[-1]
    if ann is None and isinstance(val, ast.DictComp):
        # {x.key: x for x in xs}: what has attributes is not None
        plain = (
            isinstance(val.value, ast.Name) and isinstance(val.key, ast.Attribute)
            and isinstance(val.key.value, ast.Name) and val.key.value.id == val.value.id
        )
        return ("dict", not plain)
    ctor = None
    if isinstance(val, ast.Call):
        ctor = ast.unparse(val.func).split(".")[-1]
    if base is None and ctor is None:
        return None
    none = True
    if arg is not None:
        s = ast.unparse(arg)
        none = s.startswith(("Optional", "Any", "Union")) or s == "None"
    if base in ("Dict", "dict"):
        return ("ddict" if ctor == "defaultdict" else "dict", none)
    if base in ("DefaultDict", "defaultdict"):
        return ("ddict", none)
    if base in ("Counter", "CounterType") or (base is None and ctor == "Counter"):
        return ("counter", False)
    if base in ("List", "list"):
        return ("list", none)
    if base in ("Set", "set"):
        return ("set", False)
    return ("other", True) if base is not None else None


Program.attr_types = _attr_types
Program.attr_assigned = _attr_assigned
Program.set_attrs = _set_attrs


def _param_effects(self):
    if not hasattr(self, "_params"):
        from .params import Params

        self._params = Params(self)
    return self._params


Program.param_effects = _param_effects
