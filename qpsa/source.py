"""Loading and name resolution: parses the package from source, resolves names, classes,
imports (including star imports) and method resolution order.  Nothing is imported or run."""
import ast
import os


MUTATORS = {"update", "pop", "clear", "setdefault", "popitem", "append", "extend", "insert", "remove", "add", "discard", "move_to_end"}


class AnalysisBroken(Exception):
    pass


class Func:
    __slots__ = ("node", "module", "cls", "kind", "name", "key", "qual", "setter")

    def __init__(self, node, module, cls, kind):
        self.node, self.module, self.cls, self.kind = node, module, cls, kind
        self.name = node.name
        self.qual = (cls.name + "." if cls else "") + node.name
        self.key = self.qual
        self.setter = False

    def __repr__(self):
        return f"<Func {self.key}>"

    @property
    def file(self):
        return self.module.path

    @property
    def line(self):
        return self.node.lineno


class Cls:
    __slots__ = ("name", "node", "module", "methods", "setters", "attrs", "base_exprs", "_mro", "key")

    def __init__(self, node, module):
        self.name, self.node, self.module = node.name, node, module
        self.key = node.name
        self.methods, self.setters, self.attrs = {}, {}, {}
        self.base_exprs = node.bases
        self._mro = None
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = "method"
                is_setter = False
                for d in st.decorator_list:
                    nm = d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", None)
                    if nm == "staticmethod":
                        kind = "static"
                    elif nm == "classmethod":
                        kind = "class"
                    elif nm in ("property", "cached_property"):
                        kind = "property"
                    elif nm == "setter":
                        is_setter = True
                f = Func(st, module, self, kind)
                if is_setter:
                    f.setter = True
                    f.qual = f.key = f"{self.name}.{st.name}.setter"
                    self.setters[st.name] = f
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                self.attrs[st.target.id] = st.value

    def __repr__(self):
        return f"<Cls {self.name}>"


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.bind = {}
        self.stars = []
        self._scan(tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.bind[st.name] = Func(st, self, None, "function")
            elif isinstance(st, ast.ClassDef):
                self.bind[st.name] = Cls(st, self)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.bind[a.asname] = ("mod", a.name)
                    else:
                        self.bind[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = self._rel(st)
                for a in st.names:
                    if a.name == "*":
                        self.stars.append(base)
                    else:
                        self.bind[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.bind[t.id] = ("val", st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                self.bind[st.target.id] = ("val", st.value)
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(st.body)
                for h in getattr(st, "handlers", []):
                    self._scan(h.body)
                self._scan(st.orelse)

    def _rel(self, st):
        if not st.level:
            return st.module
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (st.level - 1)]
        return ".".join(parts + ([st.module] if st.module else []))


class Universe:
    def __init__(self, root, label):
        """root: directory of the qp package"""
        self.root, self.label = root, label
        self._stateful = None
        self.modules = {}
        self.lines = 0
        for dirpath, dirs, files in os.walk(root):
            dirs.sort()
            dirs[:] = [d for d in dirs if d != "__pycache__"]
            for fn in sorted(files):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(["qp"] + parts)
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as exc:
                    raise AnalysisBroken(f"cannot parse {path}: {exc}")
                self.lines += src.count("\n")
                self.modules[name] = Module(name, os.path.join("src/qp", rel), tree, is_pkg)
        self.classes, self.funcs = {}, {}
        for m in self.modules.values():
            for b in m.bind.values():
                if isinstance(b, Cls):
                    if b.name in self.classes:
                        b.key = f"{m.name}:{b.name}"
                    self.classes[b.key] = b
                elif isinstance(b, Func):
                    if b.key in self.funcs:
                        b.key = f"{m.name}:{b.key}"
                    self.funcs[b.key] = b
        for c in self.classes.values():
            for f in list(c.methods.values()) + list(c.setters.values()):
                f.key = f"{c.key}.{f.name}" + (".setter" if f.setter else "")
                self.funcs[f.key] = f

    def stateful(self):
        """(module, name) of the module-level values that functions change"""
        if self._stateful is None:
            out = self._stateful = set()
            for m in self.modules.values():
                for f in ast.walk(m.tree):
                    if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        continue
                    glob = {n for g in ast.walk(f) if isinstance(g, ast.Global) for n in g.names}
                    a = f.args
                    local = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
                    local |= {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - glob
                    used = set(glob)
                    for n in ast.walk(f):
                        if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                            used.add(n.value.id)
                        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                                n.func.attr in MUTATORS:
                            used.add(n.func.value.id)
                    for nm in used - local:
                        r = self.resolve(m, nm)
                        if isinstance(r, tuple) and r[0] == "val":
                            out.add((r[1].name, r[3]))
        return self._stateful

    # -- names
    def resolve(self, module, name, _seen=None):
        """-> Func | Cls | ('val', module, expr, name) | ('ext', dotted) | ('module', name) | None"""
        _seen = _seen or set()
        if (module.name, name) in _seen:
            return None
        _seen.add((module.name, name))
        b = module.bind.get(name)
        if b is None:
            sub = f"{module.name}.{name}"
            if module.is_pkg and sub in self.modules:
                return ("module", sub)
            for base in module.stars:
                if base in self.modules:
                    r = self.resolve(self.modules[base], name, _seen)
                    if r is not None:
                        return r
            return None
        if isinstance(b, (Func, Cls)):
            return b
        if b[0] == "val":
            # alias of another name (x = y) is followed by the interpreter
            return ("val", module, b[1], name)
        if b[0] == "mod":
            if b[1] in self.modules:
                return ("module", b[1])
            return ("ext", b[1])
        _, base, nm = b
        if base in self.modules:
            r = self.resolve(self.modules[base], nm, _seen)
            if r is not None:
                return r
            if f"{base}.{nm}" in self.modules:
                return ("module", f"{base}.{nm}")
            return None
        return ("ext", f"{base}.{nm}")

    def resolve_attr(self, modname, name):
        m = self.modules.get(modname)
        if m is None:
            return None
        r = self.resolve(m, name)
        if r is None and f"{modname}.{name}" in self.modules:
            return ("module", f"{modname}.{name}")
        return r

    # -- classes
    def bases(self, cls):
        out = []
        for e in cls.base_exprs:
            r = None
            if isinstance(e, ast.Name):
                r = self.resolve(cls.module, e.id)
            elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
                b = self.resolve(cls.module, e.value.id)
                if isinstance(b, tuple) and b[0] == "module":
                    r = self.resolve_attr(b[1], e.attr)
                elif isinstance(b, tuple) and b[0] == "ext":
                    r = ("ext", b[1] + "." + e.attr)
            out.append(r if r is not None else ("ext", ast.unparse(e)))
        return out

    def mro(self, cls):
        """C3 linearisation; external bases appear as ('ext', dotted)"""
        if cls._mro is not None:
            return cls._mro
        cls._mro = [cls]          # cycle guard
        seqs = []
        bases = [b for b in self.bases(cls) if isinstance(b, Cls) or (isinstance(b, tuple) and b[0] == "ext")]
        for b in bases:
            seqs.append(list(self.mro(b)) if isinstance(b, Cls) else [b])
        seqs.append(list(bases))
        out = [cls]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                c = s[0]
                if not any(c in o[1:] for o in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            for s in seqs:
                if s and s[0] == c:
                    s.pop(0)
                elif c in s:
                    s.remove(c)
        cls._mro = out
        return out

    def find_method(self, cls, name, after=None):
        mro = self.mro(cls)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for c in mro:
            if isinstance(c, Cls) and name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, Cls) and name in c.setters:
                return c.setters[name]
        return None

    def find_attr(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, Cls) and name in c.attrs:
                return c, c.attrs[name]
        return None

    def ext_bases(self, cls):
        return [c[1] for c in self.mro(cls) if isinstance(c, tuple)]

    def subclasses(self, cls):
        return [c for c in self.classes.values() if c is not cls and cls in self.mro(c)]


# ---------------------------------------------------------------- functions which always hand something back
def never_none(u):
    """keys of the functions with no way to return None: every way out is a return of a computed value, or an error"""
    cand = {k: f for k, f in u.funcs.items() if f.kind != "property" and returns_of(f.node) is not None}
    good = set(cand)
    while True:
        bad = {k for k in good if not all(_something(e, cand[k], u, good) for e in returns_of(cand[k].node))}
        if not bad:
            return good
        good -= bad


def returns_of(fn):
    """the expressions a function returns, or None when it may fall off its end (or is no plain function)"""
    if not isinstance(fn, ast.FunctionDef) or not _ends(fn.body):
        return None
    out = []
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return None
        if isinstance(n, ast.Return):
            if n.value is None:
                return None
            out.append(n.value)
        todo.extend(ast.iter_child_nodes(n))
    return out


def _ends(body):
    s = body[-1] if body else None
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    if isinstance(s, ast.If):
        return _ends(s.body) and _ends(s.orelse)
    if isinstance(s, ast.With):
        return False
    if isinstance(s, ast.Try):
        return not s.finalbody and (_ends(s.orelse) if s.orelse else _ends(s.body)) and all(_ends(h.body) for h in s.handlers)
    return False


def _something(e, f, u, good, depth=0):
    if isinstance(e, (ast.BinOp, ast.Compare, ast.Tuple, ast.List, ast.Dict, ast.ListComp, ast.DictComp, ast.JoinedStr)):
        return True
    if isinstance(e, ast.Constant):
        return e.value is not None
    if isinstance(e, ast.IfExp):
        return _something(e.body, f, u, good, depth) and _something(e.orelse, f, u, good, depth)
    if isinstance(e, ast.Call):
        g = e.func
        if isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name) and g.value.id in ("np", "numpy"):
            return True
        if isinstance(g, ast.Attribute) and g.attr in ("reshape", "ravel", "flatten", "copy", "astype", "sum", "mean", "transpose", "squeeze"):
            return True
        if isinstance(g, ast.Name) and g.id in ("dict", "list", "tuple", "float", "int", "bool", "sum", "len", "zip", "range", "sorted", "set"):
            return True
        if isinstance(g, ast.Name):
            return g.id in good
    if isinstance(e, ast.Name) and depth < 3:
        a = f.node.args
        if e.id in {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}:
            return False
        found = []
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id == e.id and not isinstance(n.ctx, ast.Load):
                found.append(n)
        plain = [n for n in ast.walk(f.node) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == e.id]
        return bool(plain) and len(plain) == len(found) and all(_something(n.value, f, u, good, depth + 1) for n in plain)
    return False
