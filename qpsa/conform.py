"""Compares the outcome terms of every function of the analysed tree with those of its accepted
definition.  An outcome is the returned value, each attribute written, each effect and each error,
as a gated term over the function's inputs (see interp.py); both sides are brought to canonical
form (canon.py) and compared by case splitting (compare.py)."""
import ast
import copy

from .source import Universe, Func, Cls
from .interp import Interp, Unsupported, leaves
from .canon import Canon
from .compare import Compare, Edit, Budget, uniq
from .terms import T, mk, is_const, walk, show, NONE, TRUE
from .norm import and_, or_
from . import vocab, compare, norm, source

SKIP_MODULES = {"qp._version", "qp.version"}
CACHING = {"lru_cache", "cache", "cached_property", "cachedmethod", "memoize"}
# methods which scipy or numpy call by name although they start with an underscore
HOOKS = {"_pdf", "_cdf", "_ppf", "_sf", "_isf", "_logpdf", "_logcdf", "_logsf", "_munp", "_stats", "_entropy", "_rvs", "_argcheck",
         "_updated_ctor_param", "_updated_ctor_param_shape", "_get_support", "_my_freeze", "_construct_argparser", "_support_mask",
         "_init_read", "_sliceargs", "_freeze"}


class Outcome:
    """one compared component of a unit"""
    __slots__ = ("name", "ref", "cur", "edits", "status")

    def __init__(self, name, ref, cur, edits, status):
        self.name, self.ref, self.cur, self.edits, self.status = name, ref, cur, edits, status


class Unit:
    """a function of the reference and its counterpart in the analysed tree"""
    __slots__ = ("key", "rf", "uf", "rcls", "ucls", "outcomes", "status", "error", "edits", "nterms", "kind")

    def __init__(self, key, rf, uf, rcls, ucls, kind="function"):
        self.key, self.rf, self.uf, self.rcls, self.ucls, self.kind = key, rf, uf, rcls, ucls, kind
        self.outcomes, self.status, self.error, self.edits, self.nterms = [], None, None, [], 0

    @property
    def where(self):
        f = self.uf or self.rf
        return f"{f.module.path}:{f.node.lineno}" if f is not None and self.uf is not None else (f.module.path if f else "?")


def weight_over(t, n):
    for _ in walk(t):
        n -= 1
        if n < 0:
            return True
    return False


def makes_up(soft, e, o):
    """the operation or input this edit is about turns up (or is missing) in another outcome"""
    if ("sure",) in e.marks:
        return False
    la, lb = (vocab.labels(soft(t))[0] if isinstance(t, T) else set() for t in (o.ref, o.cur))
    return bool(e.marks & ((la - lb) if e.side == "new" else (lb - la)))


class World:
    def __init__(self, repo_root, ref_root):
        self.U = Universe(repo_root, "repo")
        self.R = Universe(ref_root, "reference")
        self.shared = set(self.U.funcs) & set(self.R.funcs)
        self.shared_vals = self.vals(self.U) & self.vals(self.R)
        self.ref_params = {}
        for k in self.shared:
            a = self.R.funcs[k].node.args
            self.ref_params[k] = ([x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs],
                                  a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None)
        compare.GVALS.clear()
        compare.GVALS.update(self.numbers())
        norm.NEVER_NONE.clear()
        norm.NEVER_NONE.update(source.never_none(self.U) & source.never_none(self.R))
        self.canon = Canon()
        self.soft = vocab.Soft(self.canon)
        self.known = self.vocab()
        self.units = {}
        self.sums = {}
        self.fast = True
        self.limit = 400000

    @staticmethod
    def vals(u):
        return {k for m in u.modules.values() for k, b in m.bind.items() if isinstance(b, tuple) and b[0] == "val"}

    def numbers(self):
        """names every module of both trees binds to one and the same number"""
        seen = {}
        for u in (self.U, self.R):
            for m in u.modules.values():
                for k, b in m.bind.items():
                    if isinstance(b, tuple) and b[0] == "val":
                        e = b[1]
                        v = e.value if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) else None
                        seen.setdefault(k, set()).add(v)
        return {k: next(iter(v)) for k, v in seen.items() if len(v) == 1 and None not in v and k in self.shared_vals}

    def vocab(self):
        attrs, meths = set(), set()
        for m in self.R.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute):
                    attrs.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    meths.add(n.func.attr)
        funcs = {k for k in self.R.funcs} | {f.name for f in self.R.funcs.values()} | set(self.R.classes)
        return {"attrs": attrs, "methods": meths | {f.name for f in self.R.funcs.values()}, "funcs": funcs}

    # ------------------------------------------------------------------ units
    def make_units(self):
        out = {}
        for k, f in self.R.funcs.items():
            if f.module.name in SKIP_MODULES:
                continue
            if f.cls is None:
                g = self.find_function(f)
                out[k] = Unit(k, f, g, None, None)
            else:
                c = self.find_class(f.cls)
                g = None
                if c is not None:
                    g = self.U.find_setter(c, f.name) if f.setter else self.U.find_method(c, f.name)
                    if f.setter and g is None:
                        g = None
                out[k] = Unit(k, f, g, f.cls, c)
        # overriding methods that the reference inherits
        for c in self.R.classes.values():
            uc = self.find_class(c)
            if uc is None or c.module.name in SKIP_MODULES:
                continue
            for n, g in uc.methods.items():
                if n in c.methods:
                    continue
                f = self.R.find_method(c, n)
                if f is not None:
                    out[f"{c.key}.{n}"] = Unit(f"{c.key}.{n}", f, g, c, uc)
        for m in self.R.modules.values():
            if m.name in SKIP_MODULES or m.name not in self.U.modules:
                continue
            out[f"{m.name}:<module>"] = Unit(f"{m.name}:<module>", self.body_func(m, None), self.body_func(self.U.modules[m.name], None),
                                             None, None, "module")
        for c in self.R.classes.values():
            uc = self.find_class(c)
            if uc is not None and c.module.name not in SKIP_MODULES:
                out[f"{c.key}:<class>"] = Unit(f"{c.key}:<class>", self.body_func(c.module, c), self.body_func(uc.module, uc), c, uc, "class")
        return out

    def body_func(self, module, cls):
        body = [s for s in (cls.node if cls is not None else module.tree).body
                if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))]
        body = [s for s in body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        node = ast.FunctionDef(name="<body>", args=ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[],
                                                                 kwarg=None, defaults=[]),
                               body=body or [ast.Pass()], decorator_list=[], returns=None, lineno=body[0].lineno if body else 1)
        f = Func(node, module, None, "function")
        f.key = f.qual = (cls.key if cls is not None else module.name) + ":<body>"
        return f

    def find_function(self, f):
        g = self.U.funcs.get(f.key)
        if g is not None:
            return g
        m = self.U.modules.get(f.module.name)
        if m is not None:
            r = self.U.resolve(m, f.name)
            if isinstance(r, Func):
                return r
        return None

    def find_class(self, c):
        u = self.U.classes.get(c.key)
        if u is not None:
            return u
        m = self.U.modules.get(c.module.name)
        if m is not None:
            r = self.U.resolve(m, c.name)
            if isinstance(r, Cls):
                return r
        return None

    # ------------------------------------------------------------------ summaries
    def interp(self, uni, inline):
        return Interp(uni, self.shared, ref_params=self.ref_params if uni is self.U else None, shared_vals=self.shared_vals,
                      inline=frozenset(inline))

    def summary(self, uni, f, cls, inline=frozenset()):
        k = (uni.label, f.key, cls.key if cls is not None else None, inline)
        r = self.sums.get(k)
        if r is None:
            try:
                r = self.interp(uni, inline).summarize(f, cls)
            except Unsupported as exc:
                r = exc
            except RecursionError as exc:
                r = exc
            self.sums[k] = r
        return r

    def body_values(self, s):
        """names bound by a module or class body"""
        out = {}
        def go(t, name):
            from .interp import Br
            if isinstance(t, Br):
                from .norm import ite
                return ite(t.c, go(t.a, name), go(t.b, name))
            v = t.st.env.get(name)
            return NONE if v is None else self.ip_freeze(v, t.st)
        names = set()
        for _, l in leaves(s.tree):
            names |= {k for k in l.st.env if isinstance(k, str)}
        for n in names:
            out[n] = go(s.tree, n)
        return out

    def ip_freeze(self, v, st):
        return self._ip.freeze(v, st)

    # ------------------------------------------------------------------ comparison
    def compare_unit(self, u, inline=frozenset(), limit=None):
        """-> Unit with outcomes"""
        res = Unit(u.key, u.rf, u.uf, u.rcls, u.ucls, u.kind)
        if u.uf is None:
            res.status = "vanished"
            return res
        if self.fast and u.kind == "function" and not inline and self.same_source(u):
            res.status = "same"
            res.outcomes.append(Outcome("source", None, None, [], "same"))
            return res
        ips = self.interp(self.R, inline), self.interp(self.U, inline)
        try:
            ra = self.summary(self.R, u.rf, u.rcls, inline)
            rb = self.summary(self.U, u.uf, u.ucls, inline)
            for r in (ra, rb):
                if isinstance(r, Exception):
                    raise r
        except Exception as exc:           # not analysable: no verdict
            res.status, res.error = "unanalysed", f"{type(exc).__name__}: {exc}"
            return res
        C = self.canon
        loose = not (u.rf.cls is not None and u.rf.cls.name == "Ensemble")
        cmp_ = Compare(C, self.known, limit or self.limit, loose_axis=loose)
        try:
            if u.kind == "function":
                self.value(res, cmp_, "returned value", C(ra.ret), C(rb.ret))
                self.attr_outcomes(res, cmp_, ra, rb)
                self.event_outcomes(res, cmp_, ra.events, rb.events)
                self.signature(res, u)
                self.unused(res, cmp_, ra, rb)
            else:
                self._ip = ips[0]
                va = self.body_values(ra)
                self._ip = ips[1]
                vb = self.body_values(rb)
                for n in sorted(va):
                    if n.startswith("__") or (u.kind == "module" and n == "_"):
                        continue
                    if n not in vb:
                        other = self.moved_value(u, n)
                        res.outcomes.append(Outcome(f"value {n}", va[n], None, [Edit("dropped", va[n], None, not other, f"definition of {n}")],
                                                    "different"))
                    else:
                        self.value(res, cmp_, f"value {n}", C(va[n]), C(vb[n]))
                self.event_outcomes(res, cmp_, ra.events, rb.events)
        except Budget:
            res.status, res.error = "unanalysed", "comparison budget exceeded"
            return res
        except Exception as exc:           # RecursionError, or a shape of code the comparison does not know
            res.status, res.error = "unanalysed", f"{type(exc).__name__}: {exc}"
            return res
        res.nterms = cmp_.steps
        self.vocabulary(res, cmp_)
        self.verdict(res)
        return res

    def vocabulary(self, res, cmp_):
        cmp_.apart = lambda a, b: self.set_apart(res, a, b)
        cmp_.result = lambda t: self.result_of(res, t)
        for o in res.outcomes:
            if o.status == "different" and any(not e.decisive for e in o.edits) and not any(e.decisive and e.kind == "input no longer used" for e in o.edits):
                try:
                    e = vocab.judge(cmp_, self.soft, o.ref, o.cur, *self.makers(res), self.taken(res))
                except Exception:          # Budget, RecursionError, or a shape the vocabulary does not know
                    e = None
                if e is not None:
                    o.edits = [e] + [x for x in o.edits if x.decisive]
        diff = [o for o in res.outcomes if o.status == "different"]
        if len(diff) > 1 and any(not x.decisive for o in diff for x in o.edits):
            for o in diff:
                e = next((x for x in o.edits if x.decisive and getattr(x, "marks", None)), None)
                if e is None or not all(x.decisive for x in o.edits):
                    continue
                # nothing found elsewhere in the function makes up for it
                if all(p is o or all(x.decisive for x in p.edits) or not makes_up(self.soft, e, p) for p in diff):
                    for p in diff:
                        p.edits = [x for x in p.edits if x.decisive]
                    break

    # ------------------------------------------------------------------ attributes set once
    def made(self, uni, cls):
        """attributes which only the constructor sets -> their values, over the constructor's parameters"""
        if not hasattr(self, "_made"):
            self._made = {}
        k = uni.label, cls.key
        if k not in self._made:
            self._made[k] = {}
            init = uni.find_method(cls, "__init__")
            if init is None:
                return {}
            s = self.summary(uni, init, cls)
            if isinstance(s, Exception):
                return {}
            again = set()
            for c in uni.mro(cls):
                for m in getattr(c, "methods", {}).values():
                    if m.name == "__init__":
                        continue
                    for n in ast.walk(m.node):
                        if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                            again.add(n.attr)
            out = {}
            for (b, n), v in s.attrs.items():
                if b.op == "self" and n not in again:
                    out[n] = self.soft(vocab.apart(self.canon(v)))
            self._made[k] = out
        return self._made[k]

    def taken(self, res):
        """attributes which the function sets to one of its arguments as it is"""
        if res.kind != "function" or res.uf is None:
            return {}
        s = self.summary(self.U, res.uf, res.ucls)
        if isinstance(s, Exception):
            return {}
        out = {}
        for (b, n), v in s.attrs.items():
            ps = [x for x in vocab.outcomes(self.canon(v), []) if x.op == "param"]
            if b.op == "self" and len(ps) == 1:
                out[n] = ps[0]
        return out

    def set_apart(self, res, a, b):
        """the constructors of both sides give the attributes a and b different values"""
        if res.rcls is None or res.ucls is None:
            return False
        for uni, cls in ((self.R, res.rcls), (self.U, res.ucls)):
            init = uni.find_method(cls, "__init__")
            s = self.summary(uni, init, cls) if init is not None else None
            if s is None or isinstance(s, Exception):
                return False
            vs = [next((self.canon(v) for (base, n), v in s.attrs.items() if n == x and base.op == "self"), None) for x in (a, b)]
            if None in vs or self.soft(vs[0]) is self.soft(vs[1]) or any(weight_over(v, 4000) for v in vs):
                return False
        return True

    def result_of(self, res, t):
        """what an own method without arguments that matter hands back, or None"""
        if t.op != "smeth" or res.rcls is None:
            return None
        f = self.R.find_method(res.rcls, t.args[0])
        if f is None or isinstance(f, tuple):
            return None
        s = self.summary(self.R, f, res.rcls)
        return None if isinstance(s, Exception) else self.soft(self.canon(s.ret))

    def makers(self, res):
        """-> how to write out the attributes of either side, or None"""
        if res.rcls is None or res.ucls is None or res.key.endswith(".__init__") or res.kind != "function":
            return None, None
        return tuple((lambda t, uni=uni, cls=cls: vocab.written_out(t, self.made(uni, cls), self.soft)) for uni, cls in ((self.R, res.rcls), (self.U, res.ucls)))

    def moved_value(self, u, n):
        """the name is still resolvable where it was (imported, inherited, or turned into a function)"""
        if u.kind == "module":
            m = self.U.modules[u.key.split(":")[0]]
            return self.U.resolve(m, n) is not None
        return self.U.find_attr(u.ucls, n) is not None or self.U.find_method(u.ucls, n) is not None

    def same_source(self, u):
        """identical syntax (documentation, comments and layout aside)"""
        return self.digest(u.rf) == self.digest(u.uf) and self.names_same(u)

    def digest(self, f):
        d = getattr(self, "_digests", None)
        if d is None:
            d = self._digests = {}
        k = id(f.node)
        r = d.get(k)
        if r is None:
            node = copy.deepcopy(f.node)
            for n in ast.walk(node):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and \
                        isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
                    n.body = n.body[1:] or [ast.Pass()]
            r = d[k] = ast.dump(node)
        return r

    def names_same(self, u):
        """every name the function uses means the same in both trees, so the text decides"""
        for n in ast.walk(u.rf.node):
            if isinstance(n, ast.Name):
                a, b = self.R.resolve(u.rf.module, n.id), self.U.resolve(u.uf.module, n.id)
                if not self.same_entity(a, b):
                    return False
            if isinstance(n, ast.Attribute) and u.rcls is not None and isinstance(n.value, ast.Name):
                fa, fb = self.R.find_method(u.rcls, n.attr), self.U.find_method(u.ucls, n.attr)
                if (fa is None) != (fb is None):
                    return False
                if fa is not None and (fa.key not in self.shared or fb.key not in self.shared):
                    return False
                if fa is not None and fa.kind == "property" and self.digest(fa) != self.digest(fb):
                    return False
        return True

    def same_entity(self, a, b):
        if type(a) is not type(b):
            return False
        if a is None:
            return True
        if isinstance(a, (Func, Cls)):
            if isinstance(a, Func) and (a.key not in self.shared or b.key not in self.shared):
                return False
            return a.key == b.key
        if a[0] == "val":
            return b[0] == "val" and a[3] == b[3] and a[3] in self.shared_vals
        return a[:2] == b[:2]

    def value(self, res, cmp_, name, a, b):
        if cmp_.eq(a, b):
            res.outcomes.append(Outcome(name, a, b, [], "same"))
            return
        d = cmp_.diff(a, b)
        res.outcomes.append(Outcome(name, a, b, d, "different" if d else "same"))

    def attr_outcomes(self, res, cmp_, ra, rb):
        C = self.canon
        ka = {(C(k[0]), k[1]): v for k, v in ra.attrs.items()}
        kb = {(C(k[0]), k[1]): v for k, v in rb.attrs.items()}
        for k in ka:
            name = f"attribute {show(k[0], 4)}.{k[1]}"
            if k in kb:
                self.value(res, cmp_, name, C(ka[k]), C(kb[k]))
            else:
                gone = k[0].op == "self" and self.readable(k[1])
                res.outcomes.append(Outcome(name, ka[k], None, [Edit("dropped", ka[k], None, gone, "assignment to " + name.split(" ", 1)[1])],
                                            "different"))
        for k in kb:
            if k not in ka:
                name = f"attribute {show(k[0], 4)}.{k[1]}"
                known = k[1] in self.known["attrs"]
                if known:
                    res.outcomes.append(Outcome(name, None, kb[k], [Edit("added", None, kb[k], self.extra_write(k, kb[k], rb), "assignment to " + name.split(" ", 1)[1])],
                                                "different"))

    def extra_write(self, k, v, s):
        """a write to state the accepted function leaves alone"""
        return False

    def readable(self, name):
        """the analysed tree still uses that attribute"""
        if not hasattr(self, "_loads"):
            self._loads = {}
            for m in self.U.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute):
                        self._loads[n.attr] = self._loads.get(n.attr, 0) + 1
        if name in self._loads:
            return True
        return name in ("_frozen", "_gen_obj", "_ancil", "__doc__", "kwds", "dist", "args")

    def event_outcomes(self, res, cmp_, ea, eb):
        C = self.canon
        xa = []
        for e in self.event_set(ea):
            if e not in xa:
                xa.append(e)
        xb = []
        for e in self.event_set(eb):
            if e not in xb:
                xb.append(e)
        la, lb = list(xa), list(xb)
        for x in list(la):
            for y in lb:
                if x is y or cmp_.eq(x, y):
                    la.remove(x)
                    lb.remove(y)
                    res.outcomes.append(Outcome("effect", x, y, [], "same"))
                    break
        while la and lb:
            best = None
            for x in la:
                for y in lb:
                    if not self.alike(x, y):
                        continue
                    d = cmp_.diff(x, y)
                    sc = (any(not e.decisive for e in d), len(d))
                    if best is None or sc < best[0]:
                        best = (sc, x, y, d)
            if best is None:
                break
            _, x, y, d = best
            la.remove(x)
            lb.remove(y)
            res.outcomes.append(Outcome("effect", x, y, d, "different" if d else "same"))
        for x in la:
            # an effect that is no longer there
            res.outcomes.append(Outcome("effect", x, None, [Edit("dropped", x, None, not lb and strong_effect(x), "effect")], "different"))
        for y in lb:
            res.outcomes.append(Outcome("effect", None, y, [Edit("added", None, y, False, "effect")], "different"))

    def event_set(self, evs):
        """guarded effects, flattened"""
        C = self.canon
        out = []
        def go(c, e):
            if e.op == "g":
                go(and_(c, e.args[0]), e.args[1])
            else:
                out.append((c, e))
        for e in evs:
            go(TRUE, C(e))
        # the same effect under several conditions
        m = {}
        for c, e in out:
            m.setdefault(e, []).append(c)
        return [C(mk("g", or_(*cs), e)) if or_(*cs) is not TRUE else e for e, cs in m.items()]

    def alike(self, x, y):
        def head(t):
            while t.op == "g":
                t = t.args[1]
            if t.op == "ev":
                t = t.args[0]
                return (t.op, t.args[0] if isinstance(t.args[0], str) else None)
            if t.op == "mut":
                return ("mut",)
            return (t.op,)
        return head(x) == head(y)

    def signature(self, res, u):
        a, b = u.rf.node.args, u.uf.node.args
        public = self.is_public(u.rf)
        if u.rf.kind != u.uf.kind:
            kinds = {u.rf.kind, u.uf.kind}
            res.outcomes.append(Outcome("signature", None, None, [Edit("kind of method changed", u.rf.kind, u.uf.kind,
                                                                       public and kinds != {"static", "class"})], "different"))
        na, nb = [x.arg for x in a.posonlyargs + a.args], [x.arg for x in b.posonlyargs + b.args]
        off = 1 if u.rf.cls is not None and u.rf.kind in ("method", "property", "class") else 0
        offb = 1 if u.uf.cls is not None and u.uf.kind in ("method", "property", "class") else 0
        pa, pb = na[off:], nb[offb:]
        da = self.defaults(self.R, u.rf)
        db = self.defaults(self.U, u.uf)
        ka = set(x.arg for x in a.kwonlyargs)
        kb = set(x.arg for x in b.kwonlyargs)
        eds = []
        for n in pa + sorted(ka):
            if n not in pb and n not in kb:
                if not b.kwarg and public and not (len(pa) == len(pb)):
                    eds.append(Edit("dropped", n, None, False, "argument"))
                continue
            if n in da and n not in db:
                eds.append(Edit("default dropped", mk("param", n), da[n], public))
            elif n in da and n in db and self.canon(da[n]) is not self.canon(db[n]):
                x, y = self.canon(da[n]), self.canon(db[n])
                eds.append(Edit("default changed", x, y, public and is_const(x) and is_const(y) and self.default_matters(u, n, x, y), f"of {n}"))
        common = [n for n in pa if n in pb]
        if public and [n for n in pb if n in common] != common:
            eds.append(Edit("order of arguments changed", ", ".join(pa), ", ".join(pb), True))
        if eds:
            res.outcomes.append(Outcome("signature", None, None, eds, "different"))

    def default_matters(self, u, n, x, y):
        # None against an explicit value: the body may fill it in
        return x is not NONE and y is not NONE

    def defaults(self, uni, f):
        a = f.node.args
        ip = self.interp(uni, frozenset())
        from .interp import Frame, State
        st = State(Frame(None, f.module, f.cls, 0))
        out = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        for n, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + \
                [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            try:
                out[n] = ip.freeze(ip.eval(d, st), st)
            except Unsupported:
                out[n] = mk("ref", "?")
        return out

    def unused(self, res, cmp_, ra, rb):
        """an input which mattered no longer does"""
        if all(o.status == "same" for o in res.outcomes):
            return
        pa, pb = self.inputs(ra), self.inputs(rb)
        for p in sorted(pa - pb):
            if any(e.decisive for o in res.outcomes for e in o.edits):
                return
            res.outcomes.append(Outcome("inputs", None, None, [Edit("input no longer used", p, None, True)], "different"))

    def inputs(self, s):
        C = self.canon
        out = set()
        seen = set()
        for t in [C(s.ret)] + [C(v) for v in s.attrs.values()] + [C(e) for e in s.events]:
            for x in walk(t, seen):
                if x.op == "param":
                    out.add(x.args[0])
        return out

    # ------------------------------------------------------------------ verdicts
    def verdict(self, res):
        diff = [o for o in res.outcomes if o.status == "different"]
        res.edits = uniq([e for o in diff for e in o.edits])
        if not diff:
            res.status = "same"
        elif res.edits and all(e.decisive for e in res.edits):
            res.status = "decisive"
        elif any(e.decisive and e.kind == "input no longer used" for e in res.edits):
            res.edits = [e for e in res.edits if e.kind == "input no longer used"]
            res.status = "decisive"
        else:
            # an outcome whose every edit is decisive stands on its own when the others are sound
            res.status = "undecided"

    def is_public(self, f):
        n = f.name
        if f.cls is not None and f.cls.name.startswith("_") is False and n in HOOKS:
            return True
        if n.startswith("__") and n.endswith("__"):
            return True
        if f.cls is None and any(m.is_pkg and m.bind.get(n, (0,))[:2] in (("from", f.module.name),) for m in self.R.modules.values()
                                 if isinstance(m.bind.get(n), tuple)):
            return True
        return not n.startswith("_")

    def run(self, log=None):
        self.units = self.make_units()
        self.results = {}
        for k, u in self.units.items():
            self.results[k] = self.compare_unit(u)
        self.confirm()
        return self.results

    # ------------------------------------------------------------------ confirmation
    def confirm(self):
        """an edit may be compensated where the function is used: candidates are looked at again with
        every changed function expanded in its callers"""
        changed = {k for k, r in self.results.items() if r.status not in ("same",)}
        dec = [k for k, r in self.results.items() if r.status == "decisive"]
        if not dec:
            return
        fkeys = frozenset(k for k in changed if k in self.shared)
        self.quieted = []
        for k in dec:
            u = self.units[k]
            r = self.results[k]
            if u.kind != "function":
                continue
            others = fkeys - {k}
            if others:
                # together with the other changed functions
                r2 = self.compare_unit(u, frozenset(others))
                if r2.status == "same":
                    r.status = "compensated"
                    continue
            if self.is_public(u.rf):
                continue
            roots = self.root_callers(u)
            if not roots:
                continue
            conf = False
            for ck, chain in roots:
                r3 = self.compare_unit(self.units[ck], frozenset(fkeys | chain | {k}))
                if r3.status in ("decisive", "undecided", "unanalysed"):
                    conf = True
                    break
            if not conf:
                r.status = "compensated"
        # attributes private to a class whose meaning changed together with their readers
        for k in dec:
            r = self.results[k]
            if r.status == "decisive":
                self.attr_protocol(k, r)

    def attr_protocol(self, k, r):
        diff = [o for o in r.outcomes if o.status == "different"]
        if not diff or not all(o.name.startswith("attribute self._") for o in diff):
            return
        names = {o.name.split("self.", 1)[1] for o in diff}
        mine = {e.key() for e in r.edits}
        for k2, r2 in self.results.items():
            if k2 == k or r2.status == "same" or self.units[k2].kind != "function":
                continue
            f = self.units[k2].uf
            if f is None:
                continue
            reads = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)}
            if reads & names and not {e.key() for e in r2.edits} <= mine:
                r.status = "undecided"
                return

    def callers(self):
        c = getattr(self, "_callers", None)
        if c is None:
            c = {}
            for k, u in self.units.items():
                if u.kind != "function" or u.uf is None:
                    continue
                for f in (u.rf, u.uf):
                    for n in ast.walk(f.node):
                        nm = None
                        if isinstance(n, ast.Attribute):
                            nm = n.attr
                        elif isinstance(n, ast.Name):
                            nm = n.id
                        if nm is not None:
                            c.setdefault(nm, set()).add(k)
            self._callers = c
        return c

    def root_callers(self, u):
        """public functions reaching u through private ones: [(key, private chain)]"""
        c = self.callers()
        out, seen = [], set()
        work = [(u.key, frozenset())]
        while work:
            k, chain = work.pop()
            name = self.units[k].rf.name
            for ck in sorted(c.get(name, ())):
                if ck in seen or ck == k:
                    continue
                seen.add(ck)
                cu = self.units[ck]
                if self.is_public(cu.rf):
                    out.append((ck, chain | {k}))
                else:
                    work.append((ck, chain | {k}))
        return out


def strong_effect(e):
    while e.op == "g":
        e = e.args[1]
    if e.op == "mut":
        return False
    if e.op == "ev":
        t = e.args[0]
        if t.op in ("smeth", "icall", "supercall"):
            return True
        if t.op == "meth":
            return t.args[0] not in ("copy", "get", "keys", "items", "values")
        if t.op == "call":
            return isinstance(t.args[0], str)
    return e.op in ("yield", "many")
