"""Equality of gated terms (decided by case splitting on their conditions) and a three-valued
difference: every difference is either *decisive* (the two terms cannot denote the same value for
all inputs: a changed constant, a swapped operand, a dropped factor ...) or *undecided*."""
from .terms import T, mk, const, cval, is_const, is_num, NONE, walk, children, show
from .norm import assume, not_, is_bool, add, mul

BINDERS = {"many", "sumof", "any", "lam", "fold", "fill", "first", "last"}


class Budget(Exception):
    pass


# functions which may coincide on the values the code passes
MAYBE = [
    {"numpy.trapz", "scipy.integrate.simpson", "scipy.integrate.simps", "scipy.integrate.trapz"},
    {"numpy.concatenate", "numpy.stack", "numpy.vstack", "numpy.hstack", "numpy.append", "numpy.column_stack",
     "numpy.dstack", "numpy.insert", "numpy.block", "numpy.r_", "numpy.c_"},
    {"numpy.squeeze", "numpy.ravel", "numpy.reshape", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.array",
     "numpy.asarray", "float", "int", "numpy.float64", "numpy.broadcast_to", "list", "tuple", "numpy.expand_dims",
     "numpy.copy", "iter"},
    {"numpy.sum", "numpy.nansum", "numpy.dot", "numpy.einsum", "numpy.matmul", "sum", "numpy.add.reduce", "numpy.inner",
     "numpy.tensordot", "numpy.vdot", "math.fsum"},
    {"numpy.where", "numpy.select", "numpy.choose", "numpy.piecewise", "numpy.flatnonzero", "numpy.nonzero", "numpy.argwhere"},
    {"numpy.unique", "set", "sorted", "numpy.sort", "frozenset"},
    {"numpy.searchsorted", "numpy.digitize"},
    {"numpy.mean", "numpy.average", "numpy.nanmean"},
    {"numpy.max", "numpy.nanmax", "max"}, {"numpy.min", "numpy.nanmin", "min"},
    {"numpy.maximum", "numpy.fmax", "numpy.clip"}, {"numpy.minimum", "numpy.fmin", "numpy.clip"},
    {"numpy.zeros", "numpy.empty", "numpy.ndarray", "numpy.zeros_like", "numpy.empty_like", "numpy.full", "numpy.full_like"},
    {"numpy.ones", "numpy.empty", "numpy.ones_like", "numpy.full", "numpy.full_like"},
    {"numpy.cumsum", "itertools.accumulate", "numpy.add.accumulate"},
    {"numpy.transpose", "numpy.swapaxes", "numpy.moveaxis"},
    {"numpy.interp", "scipy.interpolate.interp1d"},
    {"numpy.array_equal", "numpy.all", "numpy.array_equiv"},
    {"numpy.isclose", "numpy.allclose"},
    {"numpy.arange", "numpy.linspace", "range"},
    {"numpy.quantile", "numpy.nanquantile", "numpy.percentile", "numpy.nanpercentile"},
    {"numpy.median", "numpy.nanmedian"}, {"numpy.std", "numpy.nanstd"}, {"numpy.var", "numpy.nanvar"},
    {"numpy.floor", "int", "numpy.trunc", "math.floor", "numpy.fix"},
    {"numpy.round", "round", "numpy.rint"},
    {"numpy.argmax", "numpy.nanargmax"}, {"numpy.argmin", "numpy.nanargmin"},
    {"isinstance", "issubclass"}, {"numpy.any", "any"}, {"numpy.repeat", "numpy.tile"},
    {"scipy.linalg.norm", "numpy.linalg.norm"},
]
NEUTRAL_KW = {"copy", "order", "casting", "subok", "check_finite", "stacklevel", "verbose", "overwrite_a", "where", "like",
              "assume_sorted", "cache", "doc", "full_output", "fill_value_", "excluded", "otypes"}
# wrappers that may not change the value
SOFT_WRAP = {"numpy.array", "numpy.asarray", "numpy.squeeze", "numpy.ravel", "numpy.reshape", "numpy.atleast_1d",
             "numpy.atleast_2d", "float", "int", "bool", "str", "list", "tuple", "sorted", "set", "numpy.unique",
             "numpy.broadcast_to", "numpy.float64", "iter", "dict", "numpy.copy", "numpy.sort", "len", "enumerate",
             "numpy.nan_to_num", "copy.copy", "copy.deepcopy", "numpy.array_split", "numpy.broadcast_arrays",
             "numpy.expand_dims", "numpy.vectorize", "numpy.full", "numpy.size", "slice", "range", "getattr"}
SOFT_METH = {"astype", "reshape", "ravel", "squeeze", "flatten", "copy", "tolist", "item", "items", "keys", "values",
             "view", "decode", "encode", "strip", "lower", "upper", "astype", "__len__"}
COMM = {"add", "mul", "and", "or"}
ENTANGLED = {"add", "mul", "pow", "lt", "eq", "call", "meth", "index", "sumof", "fold", "fill", "setitem", "slice", "many",
             "any", "lam", "expand"}


class Edit:
    __slots__ = ("kind", "a", "b", "decisive", "note", "path", "marks", "side")

    def __init__(self, kind, a, b, decisive, note="", path=()):
        self.kind, self.a, self.b, self.decisive, self.note, self.path = kind, a, b, decisive, note, path
        self.marks = self.side = None

    def key(self):
        return (self.kind, self.a, self.b)

    def text(self):
        def s(x):
            if isinstance(x, T):
                r = show(x, 7)
                return r if len(r) <= 160 else r[:157] + "..."
            return "-" if x is None else str(x)
        k = self.kind
        if k == "dropped":
            return f"dropped {self.note}: {s(self.a)}"
        if k == "added":
            return f"added {self.note}: {s(self.b)}"
        return f"{k}{' (' + self.note + ')' if self.note else ''}: {s(self.a)}  ->  {s(self.b)}"

    def __repr__(self):
        return ("! " if self.decisive else "? ") + self.text()


def has_bv(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = t.op == "bv" or any(has_bv(c) for c in children(t))
        memo[t] = r
    return r


def literals(c):
    if c.op in ("and", "or"):
        for x in c.args:
            yield from literals(x)
    elif c.op == "not":
        yield from literals(c.args[0])
    elif c.op == "ite":
        for x in c.args:
            yield from literals(x)
    elif not is_const(c):
        yield c


def cond_atoms(t, memo={}):
    """atoms of the conditions gating t (outside binders)"""
    r = memo.get(t)
    if r is not None:
        return r
    memo[t] = ()
    out = {}
    if t.op == "ite":
        for l in literals(t.args[0]):
            if not has_bv(l):
                out.setdefault(l)
            for x in cond_atoms(l):
                out.setdefault(x)
        for x in t.args[1:]:
            for l in cond_atoms(x):
                out.setdefault(l)
    elif t.op in ("and", "or", "not"):
        for l in literals(t):
            if not has_bv(l):
                out.setdefault(l)
            for x in cond_atoms(l):
                out.setdefault(x)
    elif t.op == "g":
        for l in literals(t.args[0]):
            if not has_bv(l):
                out.setdefault(l)
        for l in cond_atoms(t.args[1]):
            out.setdefault(l)
    else:
        for c in children(t):
            for l in cond_atoms(c):
                out.setdefault(l)
    r = tuple(out)
    memo[t] = r
    return r


BOOL = {"and", "or", "not"}


def prop_atoms(c):
    if c.op in ("and", "or"):
        for x in c.args:
            yield from prop_atoms(x)
    elif c.op == "not":
        yield from prop_atoms(c.args[0])
    elif c.op == "ite":
        for x in c.args:
            yield from prop_atoms(x)
    elif not is_const(c):
        yield c


def prop_eval(c, m):
    if c.op == "and":
        return all(prop_eval(x, m) for x in c.args)
    if c.op == "or":
        return any(prop_eval(x, m) for x in c.args)
    if c.op == "not":
        return not prop_eval(c.args[0], m)
    if c.op == "ite":
        return prop_eval(c.args[1], m) if prop_eval(c.args[0], m) else prop_eval(c.args[2], m)
    if is_const(c):
        return bool(cval(c))
    return m[c]


INT_OPS = {"len", "size", "ndim"}
# module-level names bound to the same plain number in both trees
GVALS = {}


def unpacked(t):
    """the sequence x when t is the tuple (x[0], x[1], ...) of two or more items"""
    if t.op != "tuple" or len(t.args) < 2:
        return None
    base = t.args[0].args[0] if t.args[0].op == "index" else None
    if base is not None and all(e.op == "index" and e.args[0] is base and is_const(e.args[1]) and cval(e.args[1]) == i
                                for i, e in enumerate(t.args)):
        return base
    return None


def fixed(t):
    """a value that equals no other fixed value: an enumeration member or a string"""
    return t.op == "enum" or (t.op == "const" and t.args[0] == "str")


def feasible(path):
    """arithmetic consistency of the literals on a path"""
    lo, hi, ne, eqs, names = {}, {}, {}, {}, {}
    order = set()
    for c, v in path:
        if c.op == "lt":
            a, b = c.args
            if is_num(b) and not is_num(a):
                k = cval(b)
                isint = _isint(a)
                if v:
                    _mn(hi, a, (k - 1 if isint and k == int(k) else k, not (isint and k == int(k))))
                else:
                    _mx(lo, a, (k, False))
            elif is_num(a) and not is_num(b):
                k = cval(a)
                isint = _isint(b)
                if v:
                    _mx(lo, b, (k + 1 if isint and k == int(k) else k, not (isint and k == int(k))))
                else:
                    _mn(hi, b, (k, False))
            elif v:
                if (b, a) in order:
                    return False
                order.add((a, b))
        elif c.op == "eq":
            a, b = c.args
            if a.op == "gref" and a.args[0] in GVALS:
                a = const(GVALS[a.args[0]])
            if b.op == "gref" and b.args[0] in GVALS:
                b = const(GVALS[b.args[0]])
            if is_num(a) or fixed(a):
                a, b = b, a
            if fixed(b) and not is_num(b):
                if fixed(a):
                    if v != (a == b):
                        return False
                elif v:
                    if names.setdefault(a, b) != b:
                        return False
            elif is_num(b):
                if v:
                    if a in eqs and eqs[a] != cval(b):
                        return False
                    eqs[a] = cval(b)
                    _mn(hi, a, (cval(b), False))
                    _mx(lo, a, (cval(b), False))
                else:
                    ne.setdefault(a, set()).add(cval(b))
    for e in set(lo) | set(hi) | set(ne):
        l, h = lo.get(e), hi.get(e)
        if e.op in INT_OPS:
            l = max(l or (0, False), (0, False))
        excl = ne.get(e, ())
        if _isint(e) and l is not None:
            while l[0] in excl:
                l = (l[0] + 1, False)
        if _isint(e) and h is not None:
            while h[0] in excl:
                h = (h[0] - 1, False)
        if l is not None and h is not None:
            if l[0] > h[0] or (l[0] == h[0] and (l[1] or h[1])):
                return False
            if l[0] == h[0] and l[0] in excl:
                return False
    return True


def _isint(e):
    return e.op in INT_OPS or (e.op == "index" and e.args[0].op == "shape")


def _mn(d, k, v):
    if k not in d or (v[0], not v[1]) < (d[k][0], not d[k][1]):
        d[k] = v


def _mx(d, k, v):
    if k not in d or (v[0], v[1]) > (d[k][0], d[k][1]):
        d[k] = v


class Compare:
    def __init__(self, canon, known=None, limit=40000, loose_axis=True):
        """known: vocabulary of the reference (attrs, funcs, methods)"""
        self.canon = canon
        self.known = known
        self.limit = limit
        self.steps = 0
        self.eqm = {}
        self.dm = {}
        self.loose_axis = loose_axis
        self.splits = 0
        self.loose = set()          # conditions only one side has

    def tick(self):
        self.steps += 1
        if self.steps > self.limit:
            raise Budget()

    # ------------------------------------------------------------------ equality
    def eq(self, a, b, path=()):
        if a is b:
            return True
        k = (a, b, path)
        r = self.eqm.get(k)
        if r is not None:
            return r
        self.tick()
        self.eqm[k] = False
        r = self._eq(a, b, path)
        self.eqm[k] = r
        return r

    def _eq(self, a, b, path):
        if is_num(a) and is_num(b):
            x, y = cval(a), cval(b)
            return x == y or (abs(x - y) <= 1e-12 * max(abs(x), abs(y)))
        at = cond_atoms(a)
        bt = cond_atoms(b)
        if (at or bt) and len(path) < 14:
            c = self.pick(at, bt)
            self.splits += 1
            for v in (True, False):
                p = path + ((c, v),)
                if not feasible(p):
                    continue
                x, y = self.under(a, c, v), self.under(b, c, v)
                if not self.eq(x, y, p):
                    return False
            return True
        if (a.op in BOOL or b.op in BOOL) and is_bool(a) and is_bool(b) and self.truth_table(a, b):
            return True
        if a.op != b.op:
            return unpacked(a) is b or unpacked(b) is a or self.arith_eq(a, b)
        if a.op in COMM or a.op in ("mindom", "bitand", "bitor", "set"):
            if self.match_all(list(a.args), list(b.args), path):
                return True
            return self.arith_eq(a, b)
        if a.op == "call" and a.args[0] in ("min", "max") and a.args[0] == b.args[0] and not a.args[2] and not b.args[2]:
            return self.match_all(list(a.args[1]), list(b.args[1]), path)
        if a.op in ("eq",):
            (p, q), (r, s) = a.args, b.args
            return (self.eq(p, r, path) and self.eq(q, s, path)) or (self.eq(p, s, path) and self.eq(q, r, path))
        if len(a.args) != len(b.args):
            return False
        if a.op == "dict":
            return self.dict_eq(a, b, path)
        return all(self.arg_eq(x, y, path) for x, y in zip(a.args, b.args))

    def truth_table(self, a, b):
        """propositional equivalence over the shared atoms (bound variables are ordinary names here)"""
        la = {l for l in prop_atoms(a)}
        lb = {l for l in prop_atoms(b)}
        ats = sorted(la | lb, key=lambda t: t.id)
        if len(ats) > 9 or not ats:
            return False
        import itertools
        for vals in itertools.product((True, False), repeat=len(ats)):
            m = dict(zip(ats, vals))
            if prop_eval(a, m) != prop_eval(b, m) and feasible(tuple(m.items())):
                return False
        return True

    def arith_eq(self, a, b):
        if a.op in ("add", "mul", "pow") and b.op in ("add", "mul", "pow"):
            return expand_poly(a) is expand_poly(b)
        return False

    def pick(self, at, bt):
        both = [c for c in at if c in bt]
        for c in both or at or bt:
            # innermost conditions first: an atom whose own atoms are all settled
            if not cond_atoms(c) or all(x is c for x in cond_atoms(c)):
                return c
        return (both or at or bt)[0]

    def under(self, t, c, v):
        return self.canon(assume(t, c, v))

    def arg_eq(self, x, y, path):
        if x is y:
            return True
        if isinstance(x, T) and isinstance(y, T):
            return self.eq(x, y, path)
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return False
            if x and isinstance(x[0], T) and x[0].op in ("ev", "g", "mut"):
                return self.match_all(list(x), list(y), path)
            return all(self.arg_eq(p, q, path) for p, q in zip(x, y))
        return x == y

    def match_all(self, xs, ys, path):
        if len(xs) != len(ys):
            return False
        ys = list(ys)
        for x in xs:
            for j, y in enumerate(ys):
                if self.eq(x, y, path):
                    del ys[j]
                    break
            else:
                return False
        return True

    def dict_eq(self, a, b, path):
        lit = all(l.op == "kv" and is_const(l.args[0]) for l in a.args + b.args)
        if lit:
            da, db = {l.args[0]: l.args[1] for l in a.args}, {l.args[0]: l.args[1] for l in b.args}
            return set(da) == set(db) and all(self.eq(da[k], db[k], path) for k in da)
        return len(a.args) == len(b.args) and all(self.eq(x, y, path) for x, y in zip(a.args, b.args))

    # ------------------------------------------------------------------ difference
    def diff(self, a, b, path=(), role=None):
        """list of edits; empty when equal"""
        k = (a, b, path, role)
        r = self.dm.get(k)
        if r is not None:
            return r
        self.tick()
        if self.eq(a, b, path):
            self.dm[k] = []
            return []
        self.dm[k] = [Edit("replaced", a, b, False)]
        r = self._diff(a, b, path, role)
        self.dm[k] = r
        return r

    def best(self, alts):
        alts = [x for x in alts if x is not None]
        return min(alts, key=lambda es: (sum(not e.decisive for e in es) > 0, sum(6 if not e.decisive else 1 for e in es))) if alts else None

    def _diff(self, a, b, path, role):
        alts = []
        at, bt = cond_atoms(a), cond_atoms(b)
        if a.op == "ite" or b.op == "ite":
            alts += self.ite_diffs(a, b, path, role)
        if (at or bt) and len(path) < 10:
            if set(at) == set(bt) or (set(at) & set(bt)) or not (a.op == b.op):
                e = self.split_diff(a, b, path, role, at, bt)
                if e is not None:
                    alts.append(e)
        if a.op != "ite" and b.op != "ite":
            alts.append(self.node_diff(a, b, path, role))
            alts.append(self.wrap_diff(a, b, path))
        elif a.op == b.op == "ite":
            pass
        alts = [x for x in alts if x is not None]
        if not alts:
            return [Edit("replaced", a, b, False)]
        return self.best(alts)

    def split_diff(self, a, b, path, role, at, bt):
        c = self.pick(at, bt)
        if c not in at or c not in bt:
            # a condition only one side has: see the branch edits instead
            if a.op == "ite" or b.op == "ite":
                return None
            self.loose.add(c)
        out = []
        self.splits += 1
        xs, ps = {}, {}
        for v in (True, False):
            p = path + ((c, v),)
            if feasible(p):
                ps[v] = p
                xs[v] = (self.under(a, c, v), self.under(b, c, v))
        if len(xs) == 2 and c in at and c in bt:
            (x1, y1), (x0, y0) = xs[True], xs[False]
            if self.eq(x1, y0, ()) and self.eq(x0, y1, ()) and not self.eq(x1, x0, ()):
                return [Edit("cases exchanged", a, b, True, f"for '{short(c)}'")]
        for v in xs:
            out.extend(self.diff(xs[v][0], xs[v][1], ps[v], role))
        if not out:
            return [Edit("replaced", a, b, False)]
        return uniq(out)

    def ite_diffs(self, a, b, path, role):
        alts = []
        if a.op == "ite" and b.op == "ite":
            c, x, y = a.args
            d, u, v = b.args
            if c is d:
                alts.append(uniq(self.diff(x, u, path + ((c, True),) if not has_bv(c) else path, role) +
                                 self.diff(y, v, path + ((c, False),) if not has_bv(c) else path, role)))
            else:
                if self.eq(x, u, path) and self.eq(y, v, path):
                    alts.append(self.cond_diff(c, d, path))
                elif self.eq(x, v, path) and self.eq(y, u, path):
                    alts.append(self.cond_diff(c, not_(d), path))
                else:
                    cd = self.cond_diff(c, d, path)
                    if all(e.decisive for e in cd) and len(cd) == 1:
                        alts.append(uniq(cd + self.diff(x, u, path, role) + self.diff(y, v, path, role)))
        if a.op == "ite":
            c, x, y = a.args
            for keep, lost, neg in ((x, y, False), (y, x, True)):
                if self.eq(keep, b, path) or self.eq_under(keep, b, c, not neg):
                    alts.append([self.lost_branch(c if neg else not_(c), lost, b, a, path, True)])
        if b.op == "ite":
            c, x, y = b.args
            for keep, extra, neg in ((x, y, False), (y, x, True)):
                if self.eq(a, keep, path) or self.eq_under(a, keep, c, not neg):
                    cond = c if neg else not_(c)
                    alts.append(self.new_branch(a, cond, extra, path, role))
        return alts

    def eq_under(self, p, q, c, v):
        if has_bv(c):
            return False
        return self.eq(self.under(p, c, v), self.under(q, c, v), ())

    def lost_branch(self, cond, lost, b, a, path, dec):
        note = f"case '{short(cond)}' (was {short(lost)})"
        # the lost case only matters if its value can differ from what is computed now
        soft = False
        if cond.op == "not" and False:
            soft = True
        if contains_unknown(cond):
            soft = True
        d = self.diff(lost, b, path) if lost.op != "raised" and b.op != "raised" else []
        decisive = dec and not soft and (lost.op == "raised" or b.op == "raised" or value_distinct(lost, b) or
                                         (bool(d) and all(e.decisive for e in d)))
        return Edit("dropped", a, b, decisive, note)

    def new_branch(self, a, cond, extra, path, role):
        if extra.op == "raised":
            soft = any(x.op in ("isinst", "isnone", "exc") for x in literals(cond))
            return [Edit("added", a, extra, not soft, f"error for '{short(cond)}'")]
        p = path
        if not has_bv(cond):
            a1, e1 = self.under(a, cond, True), self.under(extra, cond, True)
        else:
            a1, e1 = a, extra
        if self.eq(a1, e1, ()):
            return [Edit("replaced", a, extra, False)]
        d = self.diff(a1, e1, (), role)
        if d and all(e.decisive for e in d) and not trivial_guard(cond):
            return [Edit("added", a, extra, True, f"different value when '{short(cond)}' ({d[0].text()})")]
        return [Edit("added", a, extra, False, f"value when '{short(cond)}'")]

    # ---- conditions
    def cond_diff(self, c, d, path):
        if c is d:
            return []
        if not_(c) is d:
            return [Edit("negated condition", c, d, True)]
        for neg in (False, True):
            x, y = (not_(c), not_(d)) if neg else (c, d)
            if x.op == y.op and x.op in ("and", "or"):
                r = self.comm_diff(x, y, path, None)
                if r is not None and all(e.decisive for e in r):
                    return r
            if x.op in ("and", "or") and y in x.args:
                rest = [z for z in x.args if z is not y]
                return [Edit("dropped", z, None, not soft_cond(z), "condition") for z in rest]
            if y.op in ("and", "or") and x in y.args:
                rest = [z for z in y.args if z is not x]
                return [Edit("added", None, z, not (soft_cond(z) or given(z if y.op == "and" else not_(z))), "condition") for z in rest]
        e = self.cmp_diff(c, d)
        if e is not None:
            return [e]
        if {c.op, d.op} == {"and", "or"} and set(c.args) == set(d.args):
            return [Edit("and/or exchanged", c, d, True)]
        x, y = c, d
        while x.op == "not" and y.op == "not":
            x, y = x.args[0], y.args[0]
        if x.op == y.op and x.op not in ("and", "or"):
            r = self.node_diff(x, y, path, None)
            if r is not None:
                return r
        return [Edit("condition changed", c, d, False)]

    def cmp_diff(self, c, d):
        """< against <= against == of the same operands"""
        def form(t):
            neg = False
            while t.op == "not":
                t, neg = t.args[0], not neg
            if t.op == "lt":
                a, b = t.args
                return ("lt", a, b) if not neg else ("le", b, a)
            if t.op == "eq":
                return ("eq" if not neg else "ne", t.args[0], t.args[1])
            return None
        f, g = form(c), form(d)
        if f and g:
            if f[1:] == g[1:] and f[0] != g[0]:
                names = {f[0], g[0]}
                if names <= {"lt", "le"}:
                    return Edit("boundary of comparison changed", c, d, True)
                return Edit("comparison changed", c, d, names in ({"eq", "ne"},))
            if f[1:] == g[1:][::-1] and f[0] in ("lt", "le") and g[0] in ("lt", "le"):
                return Edit("comparison reversed", c, d, True)
        return None

    # ---- nodes
    def node_diff(self, a, b, path, role):
        if a.op in ("const", "param", "gref", "ref", "fref", "cref", "enum", "bv", "self", "raised", "mref") or \
                b.op in ("const", "param", "gref", "ref", "fref", "cref", "enum", "bv", "self", "raised", "mref"):
            return [self.leaf(a, b, role, path)]
        if is_bool(a) and is_bool(b) and (a.op in ("and", "or", "not", "lt", "eq") or b.op in ("and", "or", "not", "lt", "eq")):
            if a.op == b.op and a.op in ("lt", "eq"):
                e = self.cmp_diff(a, b)
                if e is not None:
                    return [e]
                r = self.kids(a, b, list(enumerate(a.args)), list(enumerate(b.args)), path, True)
                if a.op == "eq":
                    r = self.best([r, self.kids(a, b, list(enumerate(a.args)), list(enumerate(b.args[::-1])), path, True)])
                return r
            return self.cond_diff(a, b, path)
        if a.op == b.op and a.op in ("add", "mul"):
            return self.comm_diff(a, b, path, role)
        if "mul" in (a.op, b.op) or "add" in (a.op, b.op):
            r = self.factor_diff(a, b, path)
            if r is not None:
                return r
        if a.op == "pow" or b.op == "pow":
            ba, ea = (a.args if a.op == "pow" else (a, const(1)))
            bb, eb = (b.args if b.op == "pow" else (b, const(1)))
            if self.eq(ba, bb, path):
                if is_num(ea) and is_num(eb):
                    return [Edit("power changed", ea, eb, True)]
                return self.diff(ea, eb, path)
            if ea is eb:
                return self.diff(ba, bb, path)
            return [Edit("replaced", a, b, False)]
        if a.op != b.op:
            if {a.op, b.op} == {"getdef", "index"}:
                if self.eq(a.args[0], b.args[0], path) and self.eq(a.args[1], b.args[1], path):
                    return [Edit("default of a lookup changed", a, b, False)]
            if {a.op, b.op} <= {"smeth", "meth", "icall", "call", "new"}:
                return [self.callee_swap(a, b, path)]
            return [Edit("replaced", a, b, False)]
        o = a.op
        if o == "attr":
            if self.eq(a.args[0], b.args[0], path):
                na, nb = a.args[1], b.args[1]
                known = self.known is None or (na in self.known["attrs"] and nb in self.known["attrs"])
                return [Edit("attribute replaced", a, b, known and not same_role(na, nb))]
            if a.args[1] == b.args[1]:
                return self.diff(a.args[0], b.args[0], path)
            return [Edit("replaced", a, b, False)]
        if o == "slice":
            if all(x is NONE or is_const(x) for x in a.args + b.args):
                return [Edit("slice changed", a, b, True)]
            r = [self.diff(x, y, path) for x, y in zip(a.args, b.args)]
            n = [e for e in r if e]
            if len(n) == 1:
                return n[0]
            return [Edit("slice changed", a, b, False)]
        if o == "index":
            return self.index_diff(a, b, path)
        if o == "call":
            return self.call_diff(a, b, path)
        if o == "meth":
            return self.meth_diff(a, b, path)
        if o in ("icall", "smeth", "new"):
            if a.args[0] == b.args[0]:
                return self.kids(a, b, list(a.args[1]), list(b.args[1]), path, False)
            return [self.callee_swap(a, b, path)]
        if o == "dict":
            return self.dict_diff(a, b, path)
        if o in ("tuple", "list"):
            if len(a.args) == len(b.args):
                out = []
                for x, y in zip(a.args, b.args):
                    out.extend(self.diff(x, y, path))
                if len(a.args) == 2 and o == "tuple" and self.eq(a.args[0], b.args[1], path) and self.eq(a.args[1], b.args[0], path):
                    return [Edit("order of elements exchanged", a, b, True)]
                if len(a.args) > 1 and set(a.args) == set(b.args):
                    return [Edit("order of elements changed", a, b, True)]
                return uniq(out)
            if o == "tuple" or all(x.op == "el" for x in a.args + b.args):
                xa = [x for x in a.args if x not in b.args]
                xb = [x for x in b.args if x not in a.args]
                if not xb:
                    return [Edit("dropped", x, None, True, "element") for x in xa] or [Edit("elements changed", a, b, False)]
                if not xa:
                    return [Edit("added", None, x, True, "element") for x in xb] or [Edit("elements changed", a, b, False)]
            return [Edit("elements changed", a, b, False)]
        if o in BINDERS:
            return self.binder_diff(a, b, path)
        if o in ("el", "kv", "rest", "ext", "set", "g", "yield", "ev", "mut", "shape", "size", "ndim", "len", "not", "isnone",
                 "in", "getdef", "setitem", "expand", "key", "raised", "isinst", "copyof", "mod", "floordiv", "ctx", "fmt",
                 "lshift", "rshift", "bitxor", "bitand", "bitor", "concat", "fstr", "any", "supercall", "inplace", "exc",
                 "cbound", "star", "mindom", "eq", "lt", "first", "last", "brk", "whilecond", "sent", "popped"):
            return self.generic(a, b, path)
        return [Edit("replaced", a, b, False)]

    def generic(self, a, b, path):
        if len(a.args) != len(b.args):
            return [Edit("replaced", a, b, False)]
        if a.op == "exc":
            return [Edit("handled exception changed", a, b, a.args[0] != b.args[0])]
        if a.op == "g":
            return uniq(self.cond_diff(a.args[0], b.args[0], path) + self.diff(a.args[1], b.args[1], path))
        if a.op in ("mindom", "fstr", "concat"):
            return [Edit("replaced", a, b, False)]
        if a.op == "expand" and a.args[1] != b.args[1] and a.args[0] is b.args[0]:
            return [Edit("axis of the new dimension changed", a, b, {a.args[1], b.args[1]} == {0, 1})]
        ka, kb = flat(a.args), flat(b.args)
        if len(ka) != len(kb):
            return [Edit("replaced", a, b, False)]
        out, n = [], 0
        for i, (x, y) in enumerate(zip(ka, kb)):
            if x is y or x == y:
                continue
            if isinstance(x, T) and isinstance(y, T):
                d = self.diff(x, y, path)
                if d:
                    n += 1
                    out.extend(d)
            else:
                return [Edit("replaced", a, b, False)]
        out = uniq(out)
        if n > 1 and a.op in ENTANGLED and len(out) > 1:
            out = soften(out)
        return out or [Edit("replaced", a, b, False)]

    def kids(self, a, b, ka, kb, path, entangled):
        """children by role"""
        da, db = dict(ka), dict(kb)
        out, n = [], 0
        changed = [k for k in da if k in db and not self.eq(da[k], db[k], path)]
        if len(changed) == 2 and len(da) == len(db):
            p, q = changed
            if self.eq(da[p], db[q], path) and self.eq(da[q], db[p], path):
                comm = a.op == "eq"
                return [Edit("arguments exchanged", a, b, not comm)]
        for k in list(da) + [k for k in db if k not in da]:
            if k in da and k in db:
                if k in changed:
                    d = self.diff(da[k], db[k], path, k if isinstance(k, str) else None)
                    n += 1
                    out.extend(d)
            elif k in da:
                n += 1
                out.append(Edit("dropped", da[k], None, not (k in NEUTRAL_KW), f"argument {k}"))
            else:
                n += 1
                out.append(Edit("added", None, db[k], not (k in NEUTRAL_KW), f"argument {k}"))
        out = uniq(out)
        if n > 1 and entangled and len(out) > 1:
            out = soften(out)
        return out or [Edit("replaced", a, b, False)]

    def index_diff(self, a, b, path):
        (x, k), (y, l) = a.args, b.args
        if self.eq(x, y, path):
            if k.op == l.op == "tuple" and set(k.args) == set(l.args) and len(k.args) == len(l.args):
                return [Edit("order of indices changed", a, b, True)]
            if x.op == "shape" and is_const(k) and is_const(l) and {cval(k), cval(l)} in ({-1, 1}, {0, -2}, {0, -1}):
                return [Edit("axis changed", a, b, False)]
            if is_const(k) and is_const(l) and k.args[0] == l.args[0] == "int" and {cval(k), cval(l)} != {0, -1} and \
                    (cval(k) < 0) != (cval(l) < 0):
                return [Edit("index changed", a, b, False)]
            if is_const(k) and is_const(l):
                return [Edit("index changed", a, b, True)]
            return self.diff(k, l, path)
        if self.eq(k, l, path):
            return self.diff(x, y, path)
        # x[i][j] against y[j][i]
        if x.op == "index" and y.op == "index" and x.args[0] is y.args[0] and x.args[1] is l and y.args[1] is k:
            return [Edit("order of indices changed", a, b, True)]
        d1, d2 = self.diff(x, y, path), self.diff(k, l, path)
        out = uniq(d1 + d2)
        return out if len(out) == 1 else soften(out)

    def call_diff(self, a, b, path):
        f, g = a.args[0], b.args[0]
        if f is g or f == g:
            ka = [("#%d" % i, x) for i, x in enumerate(a.args[1])] + list(a.args[2])
            kb = [("#%d" % i, x) for i, x in enumerate(b.args[1])] + list(b.args[2])
            if f in ("min", "max") and len(ka) == len(kb) == 2 and not a.args[2] and not b.args[2] and (
                    self.eq(ka[0][1], kb[1][1], path) or self.eq(ka[1][1], kb[0][1], path)):
                kb = [(n, x) for (n, _), (_, x) in zip(kb, kb[::-1])]        # in whichever order they are written
            axis = self.axis_edit(a, b, ka, kb, path)
            if axis is not None:
                return axis
            return self.kids(a, b, ka, kb, path, True)
        if isinstance(f, T) and isinstance(g, T):
            if len(a.args[1]) == len(b.args[1]) and self.arg_eq(a.args[1], b.args[1], path) and self.arg_eq(a.args[2], b.args[2], path):
                return self.diff(f, g, path)
            d = self.diff(f, g, path)
            return soften(d) if d else [Edit("replaced", a, b, False)]
        return [self.callee_swap(a, b, path)]

    def axis_edit(self, a, b, ka, kb, path):
        da, db = dict(ka), dict(kb)
        x, y = da.get("axis", NONE), db.get("axis", NONE)
        if "axis" not in da and "axis" not in db or x is y:
            return None
        if {k: v for k, v in da.items() if k != "axis"} != {k: v for k, v in db.items() if k != "axis"}:
            return None
        f = a.args[0]
        dflt = {"numpy.diff": -1, "numpy.concatenate": 0, "numpy.stack": 0, "numpy.sort": -1, "numpy.argsort": -1,
                "numpy.trapz": -1, "numpy.linspace": 0, "numpy.split": 0}.get(f, None)
        va = cval(x) if is_const(x) else None
        vb = cval(y) if is_const(y) else None
        if (x is not NONE and not is_const(x)) or (y is not NONE and not is_const(y)):
            return [Edit("axis changed", a, b, False)]
        va = dflt if va is None else va
        vb = dflt if vb is None else vb
        maybe = self.loose_axis and {va, vb} in ({-1, 1}, {0, -2})
        return [Edit("axis changed", a, b, not maybe, f"{va} -> {vb}")]

    def meth_diff(self, a, b, path):
        if a.args[0] == b.args[0]:
            ka = [("base", a.args[1])] + [("#%d" % i, x) for i, x in enumerate(a.args[2])] + list(a.args[3])
            kb = [("base", b.args[1])] + [("#%d" % i, x) for i, x in enumerate(b.args[2])] + list(b.args[3])
            return self.kids(a, b, ka, kb, path, True)
        return [self.callee_swap(a, b, path)]

    def callee_swap(self, a, b, path):
        na, nb = callee(a), callee(b)
        ca, cb = [x for x in children(a) if isinstance(x, T)], [x for x in children(b) if isinstance(x, T)]
        same = len(ca) == len(cb) and all(self.eq(x, y, path) for x, y in zip(ca, cb))
        if not same and len(ca) != len(cb):
            # a keyword only one of the two takes
            m = min(len(ca), len(cb))
            same = m >= 1 and all(self.eq(x, y, path) for x, y in zip(ca[:m], cb[:m])) and a.op == b.op
        if not same:
            same = len(ca) >= 2 and len(ca) == len(cb) and sorted(x.id for x in ca) == sorted(y.id for y in cb)
        dec = same and distinct_callee(na, nb, a, b, self.known)
        return Edit("operation replaced", a, b, dec, f"{na} -> {nb}")

    def leaf(self, a, b, role, path=()):
        strict = not any(c in self.loose for c, _ in path)
        if is_const(a) and is_const(b):
            va, vb = cval(a), cval(b)
            if role == "axis" and {va, vb} in ({-1, 1}, {0, -2}):
                return Edit("axis changed", a, b, not self.loose_axis)
            if role in NEUTRAL_KW:
                return Edit("constant changed", a, b, False)
            if role == "dtype":
                return Edit("constant changed", a, b, False)
            return Edit("constant changed", a, b, True)
        if a.op == b.op:
            if a.op == "param":
                return Edit("argument replaced", a, b, True)
            if a.op == "enum":
                return Edit("constant changed", a, b, True)
            if a.op == "raised":
                return Edit("kind of error changed", a, b, isinstance(a.args[0], str) and isinstance(b.args[0], str))
            if a.op in ("gref",):
                return Edit("constant replaced", a, b, True)
            if a.op in ("fref", "cref"):
                return Edit("function replaced", a, b, True)
            if a.op == "ref":
                na, nb = a.args[0], b.args[0]
                if equiv_ref(na, nb) or role in ("dtype", "#0") and na.startswith("numpy.") != nb.startswith("numpy."):
                    return Edit("name replaced", a, b, False)
                return Edit("name replaced", a, b, True)
            if a.op == "bv":
                return Edit("index replaced", a, b, True)
        if b.op == "raised":
            return Edit("error raised instead of", a, b, strict)
        if a.op == "raised":
            return Edit("error no longer raised", a, b, strict)
        for p, q in ((a, b), (b, a)):
            if p is NONE and strict and solid(q):
                return Edit("value replaced by None" if q is a else "value instead of None", a, b, True)
            if is_const(p) and p is not NONE and strict and q.op in ("list", "dict", "tuple", "new"):
                return Edit("replaced", a, b, True)
        if is_const(b) and (a.op in ("param",) or (a.op in ("getdef", "index") and root_param(a))):
            if b is NONE:
                return Edit("argument ignored", a, b, True)
            return Edit("argument ignored", a, b, True)
        return Edit("replaced", a, b, False)

    def comm_diff(self, a, b, path, role):
        xs, ys = list(a.args), list(b.args)
        for x in list(xs):
            for y in ys:
                if self.eq(x, y, path):
                    xs.remove(x)
                    ys.remove(y)
                    break
        op = a.op
        word = {"add": "term", "mul": "factor", "and": "condition", "or": "condition"}[op]
        def dec(z):
            return not (op in ("and", "or") and soft_cond(z))
        if not xs and not ys:
            return None
        if not ys:
            return [Edit("dropped", x, None, dec(x), word) for x in xs]
        if not xs:
            return [Edit("added", None, y, dec(y) and not (op in ("and", "or") and given(y if op == "and" else not_(y))), word) for y in ys]
        if len(xs) == 1 and len(ys) == 1:
            x, y = xs[0], ys[0]
            if op == "mul":
                if is_num(x) and is_num(y):
                    return [Edit("factor changed", x, y, True)]
            if op == "add":
                cx, bx = coef(x)
                cy, by = coef(y)
                if bx is by and bx is not None:
                    return [Edit("sign changed" if cx == -cy else "factor changed", x, y, True)]
            if op in ("and", "or"):
                return self.cond_diff(x, y, path)
            d = self.diff(x, y, path)
            return d
        if op == "mul" and len(xs) + len(ys) <= 4:
            # one factor moved between numerator and denominator, or scaled
            nx, ny = [x for x in xs if not is_num(x)], [y for y in ys if not is_num(y)]
            if len(nx) == len(ny) == 1:
                d = self.diff(nx[0], ny[0], path)
                return soften(d + [Edit("factor changed", a, b, False)])
        if op == "add" and len(xs) == len(ys) == 2:
            # exchanged coefficients
            c = [coef(x) for x in xs]
            e = [coef(y) for y in ys]
            if {q[1] for q in c} == {q[1] for q in e}:
                return [Edit("coefficients changed", a, b, True)]
        if op in ("and", "or") and len(xs) == len(ys):
            return [Edit("condition changed", a, b, False)]
        return [Edit("replaced", a, b, False)]

    def factor_diff(self, a, b, path):
        for op in ("mul", "add"):
            word = "factor" if op == "mul" else "term"
            if a.op == op and b.op != op:
                rest = [x for x in a.args]
                for x in a.args:
                    if self.eq(x, b, path):
                        rest.remove(x)
                        return [Edit("dropped", r, None, True, word) for r in rest]
                    if op == "mul" and b.op == "pow" and x.op == "pow" and False:
                        pass
                if op == "add":
                    continue
            if b.op == op and a.op != op:
                rest = [x for x in b.args]
                for x in b.args:
                    if self.eq(x, a, path):
                        rest.remove(x)
                        return [Edit("added", None, r, True, word) for r in rest]
        # k*(a+b) is kept distributed: compare up to a common coefficient
        if a.op == "add" and b.op == "add":
            return None
        if a.op == "mul" and b.op == "mul":
            return None
        if a.op in ("add", "mul") and b.op in ("add", "mul"):
            return [Edit("replaced", a, b, False)]
        return None

    def dict_diff(self, a, b, path):
        la = [(i, l) for i, l in enumerate(a.args)]
        lit_a = {l.args[0]: l.args[1] for l in a.args if l.op == "kv"}
        lit_b = {l.args[0]: l.args[1] for l in b.args if l.op == "kv"}
        oth_a = [l for l in a.args if l.op != "kv"]
        oth_b = [l for l in b.args if l.op != "kv"]
        out = []
        for k, v in lit_a.items():
            if k in lit_b:
                out.extend(self.diff(v, lit_b[k], path, cval(k) if is_const(k) else None))
        ga, gb = [k for k in lit_a if k not in lit_b], [k for k in lit_b if k not in lit_a]
        if len(ga) == len(gb) == 1 and self.eq(lit_a[ga[0]], lit_b[gb[0]], path):
            out.append(Edit("key changed", ga[0], gb[0], is_const(ga[0]) and is_const(gb[0])))
        else:
            out.extend(Edit("dropped", k, None, is_const(k) and not oth_b_new(oth_a, oth_b), "entry") for k in ga)
            out.extend(Edit("added", None, k, is_const(k), "entry") for k in gb)
        xa = list(oth_a)
        xb = list(oth_b)
        for x in list(xa):
            for y in xb:
                if self.eq(x, y, path):
                    xa.remove(x)
                    xb.remove(y)
                    break
        if xa or xb:
            if len(xa) == len(xb) == 1:
                out.extend(self.diff(xa[0], xb[0], path))
            elif not xb:
                out.extend(Edit("dropped", x, None, x.op in ("del", "rest", "many", "g"), "entry") for x in xa)
            elif not xa:
                out.extend(Edit("added", None, x, x.op in ("del",), "entry") for x in xb)
            elif len(xa) == len(xb) and all(p.op == q.op for p, q in zip(xa, xb)):
                for p, q in zip(xa, xb):
                    out.extend(self.diff(p, q, path))
            else:
                out.append(Edit("entries changed", a, b, False))
        elif not out:
            # same entries, other order of unknown layers
            return [Edit("order of entries changed", a, b, False)]
        return uniq(out)

    def binder_diff(self, a, b, path):
        if a.op != b.op:
            return [Edit("replaced", a, b, False)]
        if a.op == "lam":
            if a.args[1] != b.args[1]:
                return [Edit("replaced", a, b, False)]
            if a.args[0] != b.args[0]:
                b = rebind(b, a.args[0])
                if b is None:
                    return [Edit("replaced", a, b, False)]
            return self.diff(a.args[2], b.args[2], path)
        ha, hb = a.args[0], b.args[0]
        if ha != hb:
            h = max(ha, hb)
            a2, b2 = rebind(a, h), rebind(b, h)
            if a2 is None or b2 is None:
                return [Edit("replaced", a, b, False)]
            a, b = a2, b2
        out = []
        n = 0
        d = self.diff(a.args[1], b.args[1], path)
        if d:
            n += 1
            simple = all(e.decisive and e.kind in ("constant changed", "dropped", "added", "sign changed", "argument replaced",
                                                   "attribute replaced", "slice changed") for e in d)
            out.extend(d if simple else soften(d))
        fa, fb = flat(a.args[2:]), flat(b.args[2:])
        if len(fa) != len(fb):
            if a.op in ("many",):
                xa = [x for x in fa if x not in fb]
                xb = [x for x in fb if x not in fa]
                if not xb and all(x.op in ("ev", "yield", "g", "mut") for x in xa):
                    return [Edit("dropped", x, None, True, "effect") for x in xa]
            return [Edit("replaced", a, b, False)]
        for x, y in zip(fa, fb):
            if x is y or x == y:
                continue
            if not (isinstance(x, T) and isinstance(y, T)):
                return [Edit("replaced", a, b, False)]
            e = self.diff(x, y, path)
            if e:
                n += 1
                out.extend(e)
        out = uniq(out)
        if n > 1 and len(out) > 1 and a.op != "many":
            out = soften(out)
        return out or [Edit("replaced", a, b, False)]

    def wrap_diff(self, a, b, path):
        """b is a part of a (an operation was dropped) or the other way round"""
        r = wrapper(a, b, self)
        if r is not None:
            return [Edit("dropped", a, b, r[1], f"operation {r[0]}")]
        r = wrapper(b, a, self)
        if r is not None:
            return [Edit("added", a, b, r[1], f"operation {r[0]}")]
        return None


# -------------------------------------------------------------------- helpers
def rebind(t, h):
    """the same binder with another height"""
    from .norm import nsubst
    h0 = t.args[0]
    if h0 == h:
        return t
    if h < h0:
        return None
    bvs = {x for x in walk(t) if x.op == "bv" and x.args[0] == h0}
    if any(x.op == "bv" and x.args[0] == h for x in walk(t)):
        return None
    m = {x: mk("bv", h, x.args[1]) for x in bvs}
    def conv(x):
        if isinstance(x, T):
            return nsubst(x, m)
        if isinstance(x, tuple):
            return tuple(conv(y) for y in x)
        return x
    return mk(t.op, h, *[conv(x) for x in t.args[1:]])


def flat(args):
    out = []
    for x in args:
        if isinstance(x, tuple):
            out.extend(flat(x))
        else:
            out.append(x)
    return out


def uniq(es):
    seen, out = set(), []
    for e in es:
        k = e.key()
        if k not in seen:
            seen.add(k)
            out.append(e)
    # an undecided edit makes a decided duplicate moot
    return out


def soften(es):
    return [Edit(e.kind, e.a, e.b, False, e.note) for e in es]


def coef(x):
    if is_num(x):
        return cval(x), None
    if x.op == "mul" and is_num(x.args[0]):
        r = x.args[1:]
        return cval(x.args[0]), (r[0] if len(r) == 1 else mk("mul", *r))
    return 1, x


def short(t):
    s = show(t, 5)
    return s if len(s) < 90 else s[:87] + "..."


def callee(t):
    if t.op == "call":
        return t.args[0] if isinstance(t.args[0], str) else "?"
    if t.op in ("icall", "new"):
        return t.args[0]
    if t.op in ("meth", "smeth"):
        return "." + t.args[0]
    return t.op


def distinct_callee(na, nb, a, b, known):
    if na == nb or "?" in (na, nb):
        return False
    if {na, nb} in ({"numpy." + n, "numpy.nan" + n} for n in ("sum", "mean", "max", "min", "median", "std", "var", "quantile", "percentile", "argmax", "argmin")):
        return True
    for g in MAYBE:
        if na in g and nb in g:
            return False
    if a.op == "call" and b.op == "call":
        if na in SOFT_WRAP and nb in SOFT_WRAP:
            return False
        return all(n.startswith(("numpy.", "scipy.", "math.")) or n in ("min", "max", "sum", "any", "all", "abs", "len", "sorted",
                   "int", "float", "round", "str", "list", "set", "range", "reversed") for n in (na, nb))
    if a.op in ("meth", "smeth") and b.op in ("meth", "smeth"):
        x, y = na[1:], nb[1:]
        if x == y or (x in SOFT_METH and y in SOFT_METH):
            return False
        return known is None or (x in known["methods"] and y in known["methods"])
    if a.op in ("icall", "new") and b.op in ("icall", "new"):
        return known is None or (na in known["funcs"] and nb in known["funcs"])
    return False


def equiv_ref(x, y):
    x, y = x.replace("numpy.", ""), y.replace("numpy.", "")
    x, y = x.rstrip("0123456789_"), y.rstrip("0123456789_")
    return x == y


def same_role(na, nb):
    """attribute pairs that hold the same value by construction"""
    for g in ({"_frozen", "frozen"}, {"_gen_obj", "gen_obj"}, {"_ancil", "ancil"}, {"npdf", "_npdf"}, {"shape", "_shape"}, {"_gen_func", "gen_func"}):
        if {na, nb} <= g:
            return True
    return na.lstrip("_") == nb.lstrip("_")


def root_param(t):
    while t.op in ("index", "getdef", "attr"):
        t = t.args[0]
    return t.op == "param"


def soft_cond(z):
    """conditions that guard against the trivial (emptiness, kinds) and may be redundant"""
    ls = list(literals(z))
    return bool(ls) and all(x.op in ("isinst",) or (x.op == "call" and x.args[0] in ("hasattr", "callable")) for x in ls)


def given(z):
    """what another package's function gave back is not None"""
    if z.op != "not" or z.args[0].op != "isnone":
        return False
    x = z.args[0].args[0]
    while x.op == "index" and is_const(x.args[1]):
        x = x.args[0]
    return x.op == "call" and isinstance(x.args[0], str) and "." in x.args[0]


def trivial_guard(cond):
    """emptiness / size guards in front of a computation that already covers them"""
    for x in literals(cond):
        if x.op == "eq" and any(is_num(y) and cval(y) == 0 for y in x.args) and any(y.op in INT_OPS for y in x.args):
            continue
        if x.op in ("param", "len", "size"):
            continue
        return False
    return True


def contains_unknown(c):
    return any(x.op in ("carried",) for x in walk(c))


def value_distinct(x, y):
    """two values that cannot coincide"""
    if is_const(x) and is_const(y):
        return x is not y
    if x is NONE or y is NONE:
        o = y if x is NONE else x
        return o.op in ("list", "tuple", "dict", "new", "add", "mul", "call") or (is_const(o) and o is not NONE)
    return False


def solid(t):
    """certainly not None"""
    if t.op == "call" and isinstance(t.args[0], str):
        return t.args[0].startswith(("numpy.", "scipy.", "math.")) or t.args[0] in ("len", "sum", "float", "int", "str", "list", "dict", "sorted")
    return t.op in ("list", "tuple", "dict", "new", "add", "mul", "pow", "setitem", "many", "sumof", "fill", "lt", "eq", "not", "and", "or",
                    "len", "size", "shape", "lam", "fref", "cref") or (t.op == "const" and t is not NONE)


def oth_b_new(oa, ob):
    return len(ob) > len(oa)


def wrapper(big, small, cmp):
    """name of the single operation by which big is made from small"""
    o = big.op
    if o == "call" and isinstance(big.args[0], str):
        cs = list(big.args[1]) + [v for _, v in big.args[2]]
        for c in cs:
            if cmp.eq(c, small, ()):
                f = big.args[0]
                return f, f not in SOFT_WRAP and (f.startswith(("numpy.", "scipy.", "math.")) or f in ("abs", "sum", "min", "max", "round", "reversed"))
    if o == "meth" and cmp.eq(big.args[1], small, ()):
        n = big.args[0]
        return "." + n, n not in SOFT_METH
    if o == "attr" and big.args[1] == "T" and cmp.eq(big.args[0], small, ()):
        return "transpose", True
    if o == "index" and cmp.eq(big.args[0], small, ()):
        k = big.args[1]
        return "[" + short(k) + "]", is_const(k) or k.op in ("slice", "tuple")
    if o == "icall":
        for n, v in big.args[1]:
            if cmp.eq(v, small, ()):
                return big.args[0], big.args[0] not in ("reshape_to_pdf_size", "reshape_to_pdf_shape", "safelog")
    if o == "not" and big.args[0] is small:
        return "not", True
    if o == "setitem" and cmp.eq(big.args[0], small, ()):
        return "assignment to " + short(big.args[1]), True
    if o == "expand" and cmp.eq(big.args[0], small, ()):
        return "new axis", False
    if o == "pow" and big.args[0] is small:
        return "power", True
    if o == "fill" and cmp.eq(big.args[3], small, ()):
        return "loop filling it", True
    return None


_POLY = {}


def expand_poly(t, depth=0):
    """sums of products with everything distributed (bounded)"""
    r = _POLY.get(t)
    if r is not None:
        return r
    r = t
    if t.op == "call" and t.args[0] == "numpy.diff" and len(t.args[2]) == 1 and t.args[2][0][0] == "a":
        x = t.args[2][0][1]
        r = add(mk("edge", x, "hi"), mul(const(-1), mk("edge", x, "lo")))
    elif t.op == "index":
        from .canon import _edge
        e = _edge(t)
        if e is not None:
            r = mk("edge", e[0], e[2])
    elif t.op == "add":
        r = add(*[expand_poly(x, depth + 1) for x in t.args])
    elif t.op == "mul":
        fs = [expand_poly(x, depth + 1) for x in t.args]
        sums = [f for f in fs if f.op == "add"]
        n = 1
        for s in sums:
            n *= len(s.args)
        if sums and n <= 24:
            terms = [const(1)]
            for f in fs:
                parts = f.args if f.op == "add" else (f,)
                terms = [mul(x, y) for x in terms for y in parts]
            r = add(*terms)
        else:
            r = mul(*fs)
    elif t.op == "pow" and is_num(t.args[1]) and cval(t.args[1]) == 2:
        b = expand_poly(t.args[0], depth + 1)
        if b.op == "add" and len(b.args) <= 4:
            r = add(*[mul(x, y) for x in b.args for y in b.args])
    _POLY[t] = r
    return r
