"""Library-aware normal form: synonyms of array operations collapse to one spelling, so that two
ways of writing the same computation give the same term."""
from .terms import mk, const, cval, is_const, is_num, NONE, TRUE, FALSE
from .norm import (nmap, not_, and_, or_, lt, eq, add, mul, power, div, index, ite, mklist, is_bool, nsubst,
                   dict_get, isnone, sub, member)

_SIG = """
sum a axis=None dtype=None out=None keepdims=False
mean a axis=None dtype=None out=None keepdims=False
std a axis=None dtype=None out=None ddof=0 keepdims=False
var a axis=None dtype=None out=None ddof=0 keepdims=False
prod a axis=None dtype=None out=None keepdims=False
max a axis=None out=None keepdims=False
min a axis=None out=None keepdims=False
median a axis=None out=None overwrite_input=False keepdims=False
nansum a axis=None
nanmean a axis=None
nanmax a axis=None
nanmin a axis=None
ptp a axis=None
any a axis=None out=None keepdims=False
all a axis=None out=None keepdims=False
argmax a axis=None out=None
argmin a axis=None out=None
argsort a axis=-1 kind=None order=None
sort a axis=-1 kind=None order=None
cumsum a axis=None dtype=None out=None
cumprod a axis=None dtype=None out=None
diff a n=1 axis=-1 prepend=NOVALUE append=NOVALUE
gradient f
linspace start stop num=50 endpoint=True retstep=False dtype=None axis=0
logspace start stop num=50 endpoint=True base=10 dtype=None axis=0
arange start stop step=1 dtype=None
zeros shape dtype=None order='C'
ones shape dtype=None order='C'
empty shape dtype=None order='C'
ndarray shape dtype=None
full shape fill_value dtype=None order='C'
zeros_like a dtype=None
ones_like a dtype=None
empty_like a dtype=None
full_like a fill_value dtype=None
concatenate arrays axis=0 out=None
stack arrays axis=0 out=None
where condition x y
clip a a_min a_max out=None
interp x xp fp left=None right=None period=None
searchsorted a v side='left' sorter=None
digitize x bins right=False
histogram a bins=10 range=None density=None weights=None
histogram_bin_edges a bins=10 range=None weights=None
quantile a q axis=None out=None overwrite_input=False method='linear' keepdims=False
percentile a q axis=None out=None overwrite_input=False method='linear' keepdims=False
expand_dims a axis
squeeze a axis=None
ravel a order='C'
reshape a newshape order='C'
repeat a repeats axis=None
tile A reps
split ary indices_or_sections axis=0
take a indices axis=None out=None mode='raise'
swapaxes a axis1 axis2
transpose a axes=None
moveaxis a source destination
flip m axis=None
fliplr m
flipud m
roll a shift axis=None
trapz y x=None dx=1 axis=-1
unique ar return_index=False return_inverse=False return_counts=False axis=None
array_equal a1 a2 equal_nan=False
isclose a b rtol=1e-05 atol=1e-08 equal_nan=False
allclose a b rtol=1e-05 atol=1e-08 equal_nan=False
dot a b
matmul a b
outer a b
floor a
ceil a
round a decimals=0
abs a
sign a
log a
log10 a
log2 a
log1p a
exp a
expm1 a
sqrt a
fabs a
isfinite a
isnan a
isinf a
maximum a b
minimum a b
bitwise_and a b
bitwise_or a b
greater a b
less a b
atleast_1d a
atleast_2d a
broadcast_to array shape
flatnonzero a
nonzero a
vectorize pyfunc otypes=None doc=None excluded=None cache=False signature=None
nan_to_num x copy=True nan=0 posinf=None neginf=None
insert arr obj values axis=None
append arr values axis=None
delete arr obj axis=None
einsum
hstack tup
vstack tup
"""
_SCI = """
scipy.interpolate.interp1d x y kind='linear' axis=-1 copy=True bounds_error=None fill_value=nan assume_sorted=False
scipy.interpolate.splrep x y w=None xb=None xe=None k=3 task=0 s=None t=None
scipy.interpolate.splev x tck der=0 ext=0
scipy.interpolate.splint a b tck full_output=0
scipy.interpolate.InterpolatedUnivariateSpline x y w=None bbox=[None,None] k=3 ext=0 check_finite=False
scipy.integrate.quad func a b args=() full_output=0
scipy.stats.kstest rvs cdf args=() N=20 alternative='two-sided' method='auto'
scipy.stats.cramervonmises rvs cdf args=()
scipy.stats.anderson_ksamp samples midrank=True
scipy.linalg.norm a ord=None axis=None keepdims=False check_finite=True
scipy.linalg.cho_solve c_and_lower b overwrite_b=False check_finite=True
scipy.linalg.solve_triangular a b trans=0 lower=False unit_diagonal=False overwrite_b=False
scipy.special.voigt_profile x sigma gamma
scipy.optimize.minimize_scalar fun bracket=None bounds=None args=() method=None tol=None options=None
"""
SIGS = {}


def _load(txt, prefix):
    for line in txt.strip().splitlines():
        parts = line.split()
        names, defs = [], {}
        for p in parts[1:]:
            if "=" in p:
                n, d = p.split("=")
                names.append(n)
                if d == "NOVALUE":
                    continue
                if d == "nan":
                    defs[n] = mk("ref", "numpy.nan")
                elif d == "[None,None]":
                    defs[n] = mklist(NONE, NONE)
                else:
                    v = eval(d, {})         # literals of the table above only
                    defs[n] = mk("tuple") if v == () else const(v)
            else:
                names.append(p)
        SIGS[prefix + parts[0]] = (names, defs)


_load(_SIG, "numpy.")
_load(_SCI, "")

ALIASES = {"numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "numpy.absolute": "numpy.abs", "abs": "numpy.abs",
           "numpy.product": "numpy.prod", "numpy.cumproduct": "numpy.cumprod", "numpy.round_": "numpy.round",
           "numpy.around": "numpy.round", "numpy.trapezoid": "numpy.trapz", "scipy.integrate.trapezoid": "numpy.trapz",
           "scipy.integrate.trapz": "numpy.trapz", "numpy.fabs": "numpy.abs", "numpy.alltrue": "numpy.all",
           "numpy.sometrue": "numpy.any", "numpy.logical_or": "numpy.bitwise_or",
           "numpy.logical_and": "numpy.bitwise_and", "numpy.asanyarray": "numpy.asarray",
           "numpy.linalg.norm": "scipy.linalg.norm", "math.sqrt": "numpy.sqrt", "math.log": "numpy.log",
           "math.exp": "numpy.exp", "math.floor": "numpy.floor", "math.ceil": "numpy.ceil",
           "collections.OrderedDict": "dict", "numpy.clip_": "numpy.clip", "numpy.cumulative_sum": "numpy.cumsum",
           "numpy.in1d": "numpy.isin", "numpy.array_equiv": "numpy.array_equal", "numpy.row_stack": "numpy.vstack",
           "functools.reduce": "reduce", "numpy.nanprod": "numpy.nanprod"}
NP_METHODS = {"sum", "mean", "std", "var", "min", "max", "argmin", "argmax", "cumsum", "cumprod", "prod", "any", "all",
              "ravel", "squeeze", "clip", "round", "dot", "searchsorted", "repeat", "take", "argsort", "swapaxes", "ptp",
              "nonzero", "diagonal"}
STRIP = {"numpy.array", "numpy.asarray", "numpy.copy", "numpy.ascontiguousarray", "copy.copy", "copy.deepcopy",
         "numpy.asfarray", "numpy.asarray_chkfinite", "numpy.require"}
ARITH = {"numpy.add": lambda a, b: add(a, b), "numpy.subtract": lambda a, b: add(a, mul(const(-1), b)),
         "numpy.multiply": lambda a, b: mul(a, b), "numpy.divide": lambda a, b: div(a, b),
         "numpy.true_divide": lambda a, b: div(a, b), "numpy.power": lambda a, b: power(a, b),
         "math.pow": lambda a, b: power(a, b), "pow": lambda a, b: power(a, b),
         "numpy.greater": lambda a, b: lt(b, a), "numpy.less": lambda a, b: lt(a, b),
         "numpy.greater_equal": lambda a, b: not_(lt(a, b)), "numpy.less_equal": lambda a, b: not_(lt(b, a)),
         "numpy.equal": lambda a, b: eq(a, b), "numpy.not_equal": lambda a, b: not_(eq(a, b)),
         "operator.add": lambda a, b: add(a, b), "operator.mul": lambda a, b: mul(a, b),
         "operator.sub": lambda a, b: add(a, mul(const(-1), b)), "operator.truediv": lambda a, b: div(a, b)}
ARITH1 = {"numpy.square": lambda a: power(a, const(2)), "numpy.negative": lambda a: mul(const(-1), a),
          "numpy.sqrt": lambda a: power(a, const(0.5)), "numpy.reciprocal": lambda a: power(a, const(-1)),
          "numpy.logical_not": lambda a: not_(a), "numpy.invert": lambda a: not_(a), "operator.neg": lambda a: mul(const(-1), a),
          "operator.not_": lambda a: not_(a)}
COMMUT2 = {"numpy.maximum", "numpy.minimum", "numpy.array_equal"}
FULL = mk("slice", NONE, NONE, NONE)
ELLIPSIS = mk("ellipsis")
BACKWARDS = mk("slice", NONE, NONE, const(-1))
REVERSED = {const(0): BACKWARDS, const(1): mk("tuple", FULL, BACKWARDS), const(-1): mk("tuple", ELLIPSIS, BACKWARDS)}


def kwcall(f, **kw):
    return mk("call", f, (), tuple(sorted(kw.items())))


def kwdict(t):
    return dict(t.args[2])


def nothing_there(t, conj):
    """a test for an empty collection beside a search through it: S and any(.. S ..) is any(.. S ..)"""
    drop = []
    for x in t.args:
        c = x if conj else x.args[0] if x.op == "not" else None
        if c is None or c.op in ("any", "not", "and", "or", "lt", "le", "eq", "isnone"):
            continue
        for y in t.args:
            if not conj:
                y = y.args[0] if y.op == "not" else y
            if y.op == "any" and y.args[1].op == "len":
                d = y.args[1].args[0]
                if d is c or d.op == "index" and d.args[0] is c and d.args[1].op == "slice":
                    drop.append(x)
    if not drop:
        return t
    return (and_ if conj else or_)(*[x for x in t.args if x not in drop])


def one_only(k):
    """the position a slice of one element picks, or None"""
    if k.op != "slice" or k.args[2] is not NONE and k.args[2] is not const(1):
        return None
    lo, hi = k.args[:2]
    if lo is const(-1) and hi is NONE:
        return -1
    if hi is const(1) and (lo is NONE or lo is const(0)):
        return 0
    return None


def plain_start(k):
    """x[:n] with n a number"""
    return (k.args[0] is NONE or k.args[0] is const(0)) and (k.args[2] is NONE or k.args[2] is const(1)) and is_const(k.args[1]) and k.args[1].args[0] == "int" \
        and cval(k.args[1]) > 0


# the first argument of the queries of a scipy distribution
FIRST_OF = {("stats", "moments"), ("pdf", "x"), ("logpdf", "x"), ("cdf", "x"), ("logcdf", "x"), ("sf", "x"), ("logsf", "x"), ("ppf", "q"), ("isf", "q")}


def counted(t):
    """a number of things"""
    return t.op in ("len", "size", "ndim") or t.op == "index" and t.args[0].op == "shape"


def never(l):
    return l.op == "g" and l.args[0] is FALSE


def all_but(l):
    """(table, names) of the entries of a table other than those of certain names"""
    if l.op != "many" or len(l.args[2]) != 1 or l.args[2][0].op != "g" or l.args[1].op != "len":
        return None
    h, dom, (g,) = l.args
    d, (c, e) = dom.args[0], g.args
    k = mk("key", d, mk("bv", h, 0))
    if e.op != "kv" or e.args[0] is not k or e.args[1] is not index(d, k):
        return None
    names = []
    for z in c.args if c.op == "and" else (c,):
        z = z.args[0] if z.op == "not" else None
        if z is None or z.op != "eq" or k not in z.args:
            return None
        names += [x for x in z.args if is_const(x) and x.args[0] == "str"]
    return (d, names) if len(names) == (len(c.args) if c.op == "and" else 1) else None


def about(c):
    """(value, test, constant) of a comparison with a number"""
    if c.op in ("lt", "le", "eq") and len(c.args) == 2:
        a, b = c.args
        if is_num(a) and not is_num(b):
            return b, {"lt": ">", "le": ">=", "eq": "="}[c.op], cval(a)
        if is_num(b) and not is_num(a):
            return a, {"lt": "<", "le": "<=", "eq": "="}[c.op], cval(b)
    return None


def exclusive(c, d):
    x, y = about(c), about(d)
    if x is None or y is None or x[0] is not y[0]:
        return False
    (_, p, m), (_, q, n) = x, y
    if q == "=":
        p, m, q, n = q, n, p, m
    if p == "=":
        return not {"=": m == n, "<": m < n, "<=": m <= n, ">": m > n, ">=": m >= n}[q]
    if p[0] == q[0]:
        return False
    if p[0] == ">":
        p, m, q, n = q, n, p, m
    return n > m or n == m and not (p == "<=" and q == ">=")      # x < m and x > n


class Canon:
    def __init__(self):
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        # iterative deepening not needed: terms are shallow enough for recursion
        x = nmap(t, self)
        for _ in range(6):
            y = self.rule(x)
            if y is x:
                break
            x = y if y in self.memo else nmap(y, self) if self._fresh(y) else y
        self.memo[t] = x
        self.memo[x] = x
        return x

    def _fresh(self, y):
        return True

    # ------------------------------------------------------------------
    def rule(self, t):
        m = getattr(self, "r_" + t.op, None)
        return m(t) if m else t

    def r_le(self, t):
        return not_(lt(t.args[1], t.args[0]))

    def r_or(self, t):
        n = nothing_there(t, False)
        if n is not t:
            return n
        return self.merge_any(t, lambda x: x if x.op == "any" else None, or_)

    def r_mul(self, t):
        # a product of conditions
        if len(t.args) > 1 and all(is_bool(z) for z in t.args):
            return self(and_(*t.args))
        return t

    def r_and(self, t):
        n = nothing_there(t, True)
        if n is not t:
            return n
        return self.merge_any(t, lambda x: x.args[0] if x.op == "not" and x.args[0].op == "any" else None, and_)

    def merge_any(self, t, pick, op):
        """any(P) or any(Q) over one domain is any(P or Q)"""
        groups, rest = {}, []
        for x in t.args:
            y = pick(x)
            if y is not None and len(y.args) == 3:
                groups.setdefault(y.args[1], []).append(y)
            else:
                rest.append(x)
        if not any(len(g) > 1 for g in groups.values()):
            return t
        from .compare import rebind
        out = []
        for dom, g in groups.items():
            h = max(y.args[0] for y in g)
            g = [rebind(y, h) for y in g]
            if any(y is None for y in g):
                return t
            m = mk("any", h, dom, self(or_(*[y.args[2] for y in g]))) if len(g) > 1 else g[0]
            out.append(m if op is or_ else not_(m))
        return op(*(rest + out))

    def r_ref(self, t):
        return NONE if t.args[0] == "numpy.newaxis" else t

    def r_expand(self, t):
        x, ax = t.args
        if x.op == "pow" and is_num(x.args[1]):
            return power(expand(x.args[0], ax), x.args[1])
        if x.op == "mul" and is_num(x.args[0]):
            r = x.args[1:]
            return mul(x.args[0], expand(r[0] if len(r) == 1 else mk("mul", *r), ax))
        return t

    def r_slice(self, t):
        lo, hi, st = t.args
        if st is not NONE and is_const(st) and cval(st) == 1:
            st = NONE
        if is_const(lo) and lo is not NONE and cval(lo) == 0 and (st is NONE or (is_const(st) and isinstance(cval(st), int) and cval(st) > 0)):
            lo = NONE
        return mk("slice", lo, hi, st)

    def r_invert(self, t):
        return not_(t.args[0])

    def r_bitand(self, t):
        if all(is_bool(x) or x.op in ("bitand", "bitor", "invert") for x in t.args):
            return and_(*t.args)
        return t

    def r_bitor(self, t):
        if all(is_bool(x) or x.op in ("bitand", "bitor", "invert") for x in t.args):
            return or_(*t.args)
        return t

    def r_len(self, t):
        x = t.args[0]
        if x.op == "call" and isinstance(x.args[0], str):
            kw = kwdict(x)
            if x.args[0] in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.ndarray") and "shape" in kw:
                s = kw["shape"]
                return s.args[0] if s.op == "tuple" and s.args else s if s.op != "tuple" else t
            if x.args[0] == "numpy.linspace" and "num" in kw:
                return kw["num"]
            if x.args[0] == "numpy.ravel" and "a" in kw:
                return mk("size", kw["a"])
        if x.op == "copyof":
            return mk("len", x.args[0])
        if x.op == "shape":
            return mk("ndim", x.args[0])
        if x.op == "index" and x.args[1].op == "tuple" and x.args[1].args and x.args[1].args[0] is FULL:
            return mk("len", x.args[0])
        return t

    def r_shape(self, t):
        x = t.args[0]
        if x.op == "call" and isinstance(x.args[0], str):
            kw = kwdict(x)
            if x.args[0] in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.ndarray") and "shape" in kw:
                s = kw["shape"]
                return s if s.op == "tuple" or s.op in ("shape", "concat", "index", "setitem") else mk("tuple", s)
            if x.args[0] in ("numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", "numpy.full_like") and "a" in kw:
                return mk("shape", kw["a"])
        return t

    def r_attr(self, t):
        b, n = t.args
        if n == "T":
            return self.transpose(b)
        if n == "real":
            return b
        return t

    def transpose(self, b):
        if b.op == "attr" and b.args[1] == "T":
            return b.args[0]
        if b.op == "call" and b.args[0] == "numpy.transpose" and set(kwdict(b)) == {"a"}:
            return kwdict(b)["a"]
        if b.op == "mul" or b.op == "add":
            # (A.T * v).T == A * v[:, None]
            def isT(x):
                return (x.op == "attr" and x.args[1] == "T") or (x.op == "pow" and isT(x.args[0]))
            def unT(x):
                if x.op == "pow":
                    return power(unT(x.args[0]), x.args[1])
                return x.args[0]
            ts = [x for x in b.args if isT(x)]
            if len(ts) >= 1:
                new = []
                ok = True
                for x in b.args:
                    if isT(x):
                        new.append(unT(x))
                    elif is_num(x):
                        new.append(x)
                    else:
                        new.append(expand(x, 1))
                if ok:
                    return (mul if b.op == "mul" else add)(*new)
        return mk("attr", b, "T")

    def r_index(self, t):
        b, k = t.args
        if k.op == "tuple":
            ks = list(k.args)
            while ks and ks[-1] is FULL and len(ks) > 1:
                ks.pop()
            if ks and ks[-1].op == "ellipsis" and len(ks) > 1:
                ks.pop()
            if len(ks) == 1:
                return self.r_index2(index(b, ks[0]))
            if len(ks) != len(k.args):
                k = mk("tuple", *ks)
                t = index(b, k)
                if t.op != "index":
                    return t
            # scalar leading index
            if is_const(ks[0]) and ks[0].args[0] == "int" or ks[0].op in ("bv", "tmpv"):
                r = mk("tuple", *ks[1:]) if len(ks) > 2 else ks[1]
                return self.r_index2(index(index(b, ks[0]), r))
            if ks[0].op == "ellipsis" and len(ks) == 2 and ks[1] is NONE:
                return expand(b, -1)
            if ks[0] is FULL and len(ks) == 2 and ks[1] is NONE:
                return expand(b, 1)
            # entries of one column
            if len(ks) == 2 and is_const(ks[1]) and ks[1].args[0] == "int":
                if is_bool(ks[0]):
                    return self.r_index2(index(self.r_index(index(b, mk("tuple", FULL, ks[1]))), ks[0]))
                if ks[0] is FULL and b.op == "index" and is_bool(b.args[1]):
                    return self.r_index2(index(self.r_index(index(b.args[0], mk("tuple", FULL, ks[1]))), b.args[1]))
                if ks[0] is FULL and b.op == "attr" and b.args[1] == "T":
                    return self.r_index2(index(b.args[0], ks[1]))
            # a column kept as a column
            if ks[0] in (FULL, ELLIPSIS) and len(ks) == 2 and (c := one_only(ks[1])) is not None:
                return expand(self.r_index(index(b, mk("tuple", ks[0], const(c)))), 1 if ks[0] is FULL else -1)
        if k is NONE:
            return expand(b, 0)
        return self.r_index2(t)

    def r_index2(self, t):
        if t.op != "index":
            return t
        b, k = t.args
        # both ends of an even grid
        if is_const(k) and k.args[0] == "int" and cval(k) in (0, -1) and b.op == "call" and b.args[0] == "numpy.linspace" and not b.args[1] and \
                set(kwdict(b)) == {"start", "stop", "num"} and is_num(kwdict(b)["num"]) and cval(kwdict(b)["num"]) > 1:
            return kwdict(b)["start" if cval(k) == 0 else "stop"]
        if k is FULL:
            return b
        if b.op == "index" and b.args[1].op == "slice" and is_const(k) and k.args[0] == "int" and plain_start(b.args[1]):
            hi = cval(b.args[1].args[1])
            if 0 <= cval(k) < hi:
                return self.r_index(index(b.args[0], k))
        if is_const(k) and k.args[0] == "int" and b.op == "call" and b.args[0] == "numpy.diff" and set(kwdict(b)) == {"a"}:
            a, i = kwdict(b)["a"], cval(k)
            return self(sub(index(a, const(i + 1)), index(a, k)) if i != -1 else sub(index(a, k), index(a, const(-2))))
        if is_const(k) and k.args[0] == "int":
            x = self.at_level(b, cval(k))
            if x is not None:
                return x
        if k.op == "slice":
            lo, hi, st = k.args
            if lo is not NONE and is_const(lo) and cval(lo) == 0 and (st is NONE or (is_const(st) and cval(st) > 0)):
                lo = NONE
            if st is not NONE and is_const(st) and cval(st) == 1:
                st = NONE
            n = mk("slice", lo, hi, st)
            if n is not k:
                return index(b, n) if n is not FULL else b
        if b.op == "attr" and b.args[1] == "T" and is_const(k) and k.args[0] == "int":
            return self.r_index(index(b.args[0], mk("tuple", FULL, k)))
        if b.op == "shape" and is_const(k) and k.args[0] == "int" and cval(k) == 0:
            return self.r_len(mk("len", b.args[0]))
        if k.op == "call" and k.args[0] == "slice" and not k.args[2]:
            a = k.args[1]
            if len(a) == 1:
                return index(b, mk("slice", NONE, a[0], NONE))
            if len(a) in (2, 3):
                return index(b, mk("slice", a[0], a[1], a[2] if len(a) == 3 else NONE))
        return t

    def at_level(self, b, i):
        """one of several quantiles asked for together is that quantile asked for alone"""
        def pick(q):
            if q.op not in ("list", "tuple"):
                return None
            es = [x.args[0] if x.op == "el" else x for x in q.args if x.op not in ("many", "ext", "g")]
            return es[i] if len(es) == len(q.args) and -len(es) <= i < len(es) else None
        if b.op == "call" and b.args[0] in ("numpy.percentile", "numpy.quantile", "numpy.nanpercentile", "numpy.nanquantile") and not b.args[1]:
            d = kwdict(b)
            e = pick(d["q"]) if "q" in d else None
            if e is not None:
                d["q"] = e
                return kwcall(b.args[0], **d)
        if b.op == "meth" and b.args[0] == "inverse_cdf" and len(b.args[2]) == 1 and not b.args[3]:
            e = pick(b.args[2][0])
            if e is not None:
                return mk("meth", b.args[0], b.args[1], (e,), b.args[3])
        return None

    def r_mod(self, t):
        # the rest of the rest by a multiple
        a, n = t.args
        if a.op == "mod" and a.args[1] is not n and a.args[1].op == "mul" and any(x is n for x in a.args[1].args):
            return mk("mod", a.args[0], n)
        return t

    def r_call(self, t):
        f, a, kw = t.args
        if not isinstance(f, str):
            return t
        if f in ALIASES:
            return mk("call", ALIASES[f], a, kw)
        if f in STRIP:
            kd = dict(kw)
            if len(a) == 1 and set(kd) <= {"copy", "order", "ndmin", "subok"} and not ("ndmin" in kd):
                return self.unarr(a[0])
            if not a and set(kd) <= {"copy", "order", "subok", "a", "object"} and ("a" in kd or "object" in kd):
                return self.unarr(kd.get("a", kd.get("object")))
            if len(a) == 2 and "dtype" not in kd and f != "copy.deepcopy":
                return mk("call", f, a[:1], tuple(sorted(list(kw) + [("dtype", a[1])])))
            return t
        if f == "numpy.histogram_bin_edges" and not a and set(dict(kw)) == {"a", "bins"}:
            e, n = dict(kw)["a"], dict(kw)["bins"]
            if e.op in ("tuple", "list") and len(e.args) == 2 and not any(x.op == "many" for x in e.args):
                lo, hi = (x.args[0] if x.op == "el" else x for x in e.args)
                return kwcall("numpy.linspace", num=add(n, const(1)), start=lo, stop=hi)
        if f in ARITH and len(a) == 2 and not kw:
            return ARITH[f](*a)
        if f in ARITH1 and len(a) == 1 and not kw:
            return ARITH1[f](*a)
        if f in ARITH1 and not a and len(kw) == 1 and kw[0][0] == "a":
            return ARITH1[f](kw[0][1])
        if f in SIGS and a and not any(x.op == "star" for x in a):
            names, defs = SIGS[f]
            if f == "numpy.arange" and len(a) == 1:
                a = (const(0),) + a
            if len(a) <= len(names):
                d = dict(kw)
                for n, x in zip(names, a):
                    d.setdefault(n, x)
                return mk("call", f, (), tuple(sorted(d.items())))
            if f in ("numpy.gradient", "numpy.einsum"):
                return t
        if f in SIGS and not a:
            names, defs = SIGS[f]
            d = dict(kw)
            for n in list(d):
                if n in defs and d[n] is defs[n] and "**" not in d:     # **kw may hold another value for it
                    del d[n]
            if f == "numpy.full" and set(d) == {"shape", "fill_value"} and is_const(d["fill_value"]) and cval(d["fill_value"]) in (0, 1):
                return kwcall("numpy.zeros" if cval(d["fill_value"]) == 0 else "numpy.ones", shape=d["shape"])
            if f in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.ndarray") and "shape" in d:
                s = d["shape"]
                if s.op == "tuple" and len(s.args) == 1:
                    d["shape"] = s.args[0]
                if s.op == "tuple" and len(s.args) > 1 and s.args[0].op == "len" and all(
                        x is index(mk("shape", s.args[0].args[0]), const(i + 1)) for i, x in enumerate(s.args[1:])):
                    s = mk("shape", s.args[0].args[0])          # n, m = a.shape; zeros((n, m))
                if s.op == "list" and all(x.op == "el" for x in s.args):
                    d["shape"] = mk("tuple", *[x.args[0] for x in s.args])
                if "dtype" in d and d["dtype"] is mk("ref", "float"):
                    del d["dtype"]
                if s.op == "shape":
                    return mk("call", f + "_like", (), tuple(sorted([("a", s.args[0])] + [(k, v) for k, v in d.items() if k != "shape"]))) \
                        if f != "numpy.ndarray" else mk("call", "numpy.empty_like", (), (("a", s.args[0]),))
                if f == "numpy.ndarray":
                    return mk("call", "numpy.empty", (), tuple(sorted(d.items())))
            if f == "numpy.all" and set(d) == {"a"} and is_bool(d["a"]):
                return not_(kwcall("numpy.any", a=not_(d["a"])))
            if f == "numpy.any" and set(d) == {"a"} and d["a"].op == "or":
                return or_(*[self.r_call(kwcall(f, a=x)) for x in d["a"].args])
            if f in ("numpy.maximum", "numpy.minimum") and len(d) == 2:
                for k_, x in list(d.items()):
                    if x.op == "call" and x.args[0] in ("numpy.zeros", "numpy.zeros_like"):
                        d[k_] = const(0)             # the bound is a number
            if f in COMMUT2:
                ks = sorted(d)
                if len(ks) == 2 and d[ks[0]].id > d[ks[1]].id:
                    d[ks[0]], d[ks[1]] = d[ks[1]], d[ks[0]]
            if f == "numpy.where" and set(d) == {"condition", "x", "y"} and d["condition"].op == "not":
                return kwcall(f, condition=d["condition"].args[0], x=d["y"], y=d["x"])
            if f == "numpy.expand_dims" and set(d) == {"a", "axis"} and is_const(d["axis"]):
                return expand(d["a"], cval(d["axis"]))
            if f == "numpy.reshape" and set(d) == {"a", "newshape"}:
                ns = d["newshape"]
                if ns.op == "list" and all(x.op == "el" for x in ns.args):
                    ns = mk("tuple", *[x.args[0] for x in ns.args])
                    return kwcall(f, a=d["a"], newshape=ns)
                if ns is const(-1) or ns is mk("tuple", const(-1)):
                    return kwcall("numpy.ravel", a=d["a"])
                if ns is mk("tuple", const(-1), const(1)):
                    return expand(d["a"], 1)
            if f == "numpy.ravel" and set(d) == {"a"} and d["a"].op == "call" and d["a"].args[0] == "numpy.ravel":
                return d["a"]
            if f == "numpy.arange" and set(d) == {"start", "stop"} and is_num(d["start"]) and cval(d["start"]) != 0 and not isinstance(cval(d["start"]), bool):
                k = cval(d["start"])    # arange(k, n) is arange(n - k) + k
                return add(kwcall(f, start=const(type(k)(0)), stop=add(d["stop"], const(-k))), const(k))
            if f in ("numpy.flip", "numpy.fliplr", "numpy.flipud") and set(d) <= {"m", "axis"} and "m" in d:
                ax = {"numpy.fliplr": const(1), "numpy.flipud": const(0)}.get(f, d.get("axis", NONE))
                if ax in REVERSED:
                    return self.r_index(index(d["m"], REVERSED[ax]))
            if f == "numpy.transpose" and set(d) == {"a"}:
                return self.transpose(d["a"])
            if f in ("numpy.sum", "numpy.mean", "numpy.max", "numpy.min", "numpy.prod") and "keepdims" in d and d["keepdims"] is TRUE \
                    and "axis" in d and is_const(d["axis"]):
                d2 = {k: v for k, v in d.items() if k != "keepdims"}
                return expand(mk("call", f, (), tuple(sorted(d2.items()))), cval(d["axis"]))
            if f == "numpy.sum" and set(d) == {"a"} and is_many_el(d["a"]):
                h, dom, ls = d["a"].args[0].args
                return mk("sumof", h, dom, ls[0].args[0])
            if f == "numpy.abs" and set(d) == {"a"}:
                x = d["a"]
                if x.op == "mul" and is_num(x.args[0]) and cval(x.args[0]) == -1:
                    return kwcall(f, a=mul(const(-1), x))
                if x.op == "add" and _coef(x.args[0])[0] < 0:
                    return kwcall(f, a=mul(const(-1), x))
            if f in ("numpy.bitwise_and", "numpy.bitwise_or") and set(d) == {"a", "b"}:
                return (self.r_bitand if f.endswith("and") else self.r_bitor)(mk("bitand" if f.endswith("and") else "bitor", *sorted(
                    (d["a"], d["b"]), key=lambda q: q.id)))
            if f in ("numpy.min", "numpy.max") and set(d) == {"a"} and d["a"].op == "list" and len(d["a"].args) > 1 and all(x.op == "el" for x in d["a"].args):
                return mk("call", f[6:], tuple(sorted((x.args[0] for x in d["a"].args), key=lambda q: q.id)), ())
            if f == "numpy.diff" and "axis" in d and d["axis"] in (const(1), const(-1)) and len(d) == 2:
                return kwcall(f, a=d["a"])
            if f == "numpy.vstack" and False:
                pass
            n = mk("call", f, (), tuple(sorted(d.items())))
            return n
        if isinstance(f, str) and f.startswith("scipy.stats.rv_continuous.") and a and a[0].op == "self":
            return mk("supercall", "scipy.stats.rv_continuous", f.rsplit(".", 1)[1], a[1:], kw)
        if f == "numpy.shape" and len(a) == 1:
            return mk("shape", a[0])
        if f == "numpy.size" and len(a) == 1 and not kw:
            return mk("size", a[0])
        if f == "numpy.size" and len(a) == 2:
            return index(mk("shape", a[0]), a[1])
        if f == "numpy.ndim" and len(a) == 1:
            return mk("ndim", a[0])
        if f == "len" and len(a) == 1:
            return mk("len", a[0])
        if f == "numpy.count_nonzero" and len(a) == 1 and not kw and is_bool(a[0]):
            return self.r_call(kwcall("numpy.sum", a=a[0]))
        if f == "sum" and len(a) == 1 and is_many_el(a[0]):
            h, dom, ls = a[0].args[0].args
            return mk("sumof", h, dom, ls[0].args[0])
        if f == "list" and len(a) == 1 and a[0].op == "list":
            return a[0]
        if f == "tuple" and len(a) == 1 and a[0].op == "tuple":
            return a[0]
        if f in ("float", "numpy.float64") and len(a) == 1 and is_num(a[0]):
            return const(float(cval(a[0])))
        if f == "range" and len(a) == 2 and a[0] is const(0):
            return mk("call", f, (a[1],), ())
        if f in ("min", "max") and len(a) >= 2 and not kw:
            return mk("call", f, tuple(sorted(a, key=lambda q: q.id)), ())
        return t

    def unarr(self, x):
        if x.op == "tuple":
            return mklist(*x.args)
        if x.op == "copyof":
            return x.args[0]
        return x

    def r_copyof(self, t):
        return t.args[0]

    def r_meth(self, t):
        name, b, a, kw = t.args
        if not a and len(kw) == 1 and (name, kw[0][0]) in FIRST_OF and b.op == "attr" and b.args[1] in ("_frozen", "frozen"):
            return mk("meth", name, b, (kw[0][1],), ())
        if name in NP_METHODS and b.op not in ("self",):
            if name in ("any", "all", "sum", "mean", "max", "min", "std", "var") and b.op == "attr" and b.args[1] in ("_frozen", "dist"):
                return t
            return mk("call", "numpy." + name, (b,) + a, kw)
        if name == "flatten" and not a and not kw:
            return mk("call", "numpy.ravel", (b,), ())
        if name == "reshape" and not kw and a:
            return mk("call", "numpy.reshape", (b, a[0] if len(a) == 1 else mk("tuple", *a)), ())
        if name == "transpose" and not a and not kw:
            return self.transpose(b)
        if name == "copy" and not a and not kw:
            return b
        if name == "astype" and len(a) == 1 and a[0] is mk("ref", "float") and not kw:
            return t
        if name == "item" and not a:
            return t
        if name == "__getitem__" and len(a) == 1:
            return index(b, a[0])
        if name == "__len__" and not a:
            return mk("len", b)
        if name == "keys" and not a:
            return t
        return t

    def r_add(self, t):
        # L[0] + sum of the others
        for x in t.args:
            if x.op == "sumof":
                h, dom, e = x.args
                if dom.op == "len" and dom.args[0].op == "index" and dom.args[0].args[1] is mk("slice", const(1), NONE, NONE) and \
                        e is index(dom.args[0], mk("bv", h, 0)):
                    L = dom.args[0].args[0]
                    first = self.r_index(index(L, const(0)))
                    firsts = {first}
                    if is_many_el(L):
                        firsts.add(self(nsubst(L.args[0].args[2][0].args[0], {mk("bv", L.args[0].args[0], 0): const(0)})))
                    for y in t.args:
                        if y in firsts:
                            rest = [z for z in t.args if z is not x and z is not y]
                            all_ = mk("call", "reduce", (mk("ref", "operator.add"), L), ())
                            return add(*(rest + [all_])) if rest else all_
        # a[1:] - a[:-1]  ->  diff(a)
        parts = [_coef(x) for x in t.args]
        used = set()
        out = []
        hit = False
        for i, (c, x) in enumerate(parts):
            if i in used:
                continue
            if x is not None and x.op == "index":
                d = _edge(x)
                if d:
                    for j, (c2, y) in enumerate(parts):
                        if j != i and j not in used and y is not None and y.op == "index" and c2 == -c:
                            e = _edge(y)
                            if e and e[0] is d[0] and e[1] == d[1] and {d[2], e[2]} == {"hi", "lo"}:
                                sgn = c if d[2] == "hi" else c2
                                out.append(mul(const(sgn), kwcall("numpy.diff", a=d[0])))
                                used |= {i, j}
                                hit = True
                                break
                    if i in used:
                        continue
            out.append(t.args[i])
        return add(*out) if hit else t

    def r_ite(self, t):
        c, a, b = t.args
        if b.op == "ite" and b.args[1] is a and a.op == "raised":
            return ite(self(or_(c, b.args[0])), a, b.args[2])
        # d[k] if k in d else v
        if c.op == "in" and a is index(c.args[1], c.args[0]) and a.op == "index":
            return dict_get(c.args[1], c.args[0], b)
        if c.op == "in" and c.args[0] is NONE and a is expand(c.args[1], 0):
            return dict_get(c.args[1], NONE, b)
        if c.op == "exc" and c.args[0] in (("KeyError",), ("LookupError",)) and b.op == "index" and c.args[1] == (b,):
            return dict_get(b.args[0], b.args[1], a)
        if c.op == "lt":
            p, q = c.args
            if {p, q} == {a, b}:
                return mk("call", "min" if a is p else "max", tuple(sorted((a, b), key=lambda z: z.id)), ())
            m = tuple(sorted((p, q), key=lambda z: z.id))
            lo, hi = mk("call", "min", m, ()), mk("call", "max", m, ())
            x, y = nsubst(a, {lo: p, hi: q}), nsubst(b, {lo: q, hi: p})
            if x is not a or y is not b:
                return self(ite(c, x, y))
        # two tests of one value which cannot both hold: the order they are made in is immaterial
        if b.op == "ite" and b.args[0].id < c.id and exclusive(c, b.args[0]):
            return mk("ite", b.args[0], b.args[1], self(mk("ite", c, a, b.args[2])))
        return t

    def r_setitem(self, t):
        # a table of zeros whose columns are set from the second on: an empty one whose first column is set to zero before
        a, k, v = t.args
        if a.op == "call" and a.args[0] in ("numpy.zeros", "numpy.zeros_like") and k.op == "tuple" and len(k.args) == 2 and \
                k.args[0] is FULL and k.args[1].op == "slice" and k.args[1].args[0] is const(1) and k.args[1].args[1] is NONE and \
                k.args[1].args[2] is NONE:
            e = mk("call", a.args[0].replace("zeros", "empty"), a.args[1], a.args[2])
            return mk("setitem", mk("setitem", e, mk("tuple", FULL, const(0)), const(0.0)), k, v)
        if k.op != "const" and is_bool(k) and (is_num(v) or v.op == "gref"):
            return self.r_call(kwcall("numpy.where", condition=k, x=v, y=a))
        return t

    def r_exc(self, t):
        names, key = t.args
        if names in (("KeyError",), ("LookupError",)) and len(key) == 1 and key[0].op == "index" and not is_num(key[0].args[1]):
            return not_(member(key[0].args[1], key[0].args[0]))       # the one thing that may fail is this lookup
        return mk("exc", names, ())

    def r_lt(self, t):
        a, b = t.args
        # whole numbers
        if is_const(a) and a.args[0] == "int" and counted(b):
            return not_(eq(const(0), b) if cval(a) == 0 else lt(b, const(cval(a) + 1))) if cval(a) >= 0 else TRUE
        if is_const(b) and b.args[0] == "int" and counted(a) and cval(b) == 1:
            return eq(const(0), a)
        # the smaller of two is less than one of them when the other is
        for x, y, f in ((a, b, "min"), (b, a, "max")):
            if x.op == "call" and x.args[0] == f and len(x.args[1]) == 2 and not x.args[2] and y in x.args[1] and not is_const(y):
                z = x.args[1][1 - x.args[1].index(y)]
                return lt(z, y) if f == "min" else lt(y, z)
        return t

    def r_fill(self, t):
        h, dom, layers, init = t.args
        i = mk("bv", h, 0)
        if len(layers) == 1 and layers[0].op == "set" and layers[0].args[0] is i and init.op == "call" and init.args[0] in (
                "numpy.zeros", "numpy.empty", "numpy.ones", "numpy.zeros_like", "numpy.empty_like", "numpy.full"):
            kw = kwdict(init)
            s = kw.get("shape")
            n = None
            if s is not None:
                n = s.args[0] if s.op == "tuple" and s.args else s
            elif "a" in kw:
                n = mk("len", kw["a"])
            same = n is dom or (n is not None and n.op == "size" and dom.op == "len" and n.args[0] is dom.args[0])
            if same:
                return mk("list", mk("many", h, dom, (mk("el", layers[0].args[1]),)))
        return t

    def r_many(self, t):
        h, dom, ls = t.args
        if any(never(l) for l in ls):
            return self(mk("many", h, dom, tuple(l for l in ls if not never(l))))
        # over a table less certain names: over the table, skipping these
        if dom.op == "len" and dom.args[0].op == "dict" and len(dom.args[0].args) > 1 and dom.args[0].args[0].op == "rest" and all(
                l.op == "del" and is_const(l.args[0]) for l in dom.args[0].args[1:]):
            d = dom.args[0]
            r = d.args[0].args[0]
            k, q = mk("key", d, mk("bv", h, 0)), mk("key", r, mk("bv", h, 0))
            c = and_(*[not_(eq(l.args[0], q)) for l in d.args[1:]])
            m = {index(d, k): index(r, q), k: q}
            new = [nsubst(l, m) for l in ls]
            return self(mk("many", h, mk("len", r), tuple(mk("g", and_(c, l.args[0]), l.args[1]) if l.op == "g" else mk("g", c, l) for l in new)))
        return t

    def r_dict(self, t):
        # all but the entries of certain names: the whole, less these entries
        if any(never(l) for l in t.args):
            return self(mk("dict", *[l for l in t.args if not never(l)]))
        less = all_but(t.args[0]) if t.args else None
        if less is not None:
            return self(mk("dict", mk("rest", less[0]), *[mk("del", k) for k in less[1]], *t.args[1:]))
        # a later table over the same keys hides an earlier one
        ls = list(t.args)
        out = []
        for n, l in enumerate(ls):
            if l.op == "many" and len(l.args[2]) == 1 and l.args[2][0].op == "kv":
                for m in ls[n + 1:]:
                    if m.op == "many" and len(m.args[2]) == 1 and m.args[2][0].op == "kv" and m.args[1] is l.args[1]:
                        k1 = nsubst(l.args[2][0].args[0], {mk("bv", l.args[0], 0): mk("BV")})
                        k2 = nsubst(m.args[2][0].args[0], {mk("bv", m.args[0], 0): mk("BV")})
                        if k1 is k2:
                            break
                else:
                    out.append(l)
                continue
            if l.op == "rest" and l.args[0].op == "icall":
                pass
            out.append(l)
        # runs of literal keys have no order
        res, run = [], []
        for l in out:
            if l.op in ("kv", "del") and is_const(l.args[0]):
                run.append(l)
            elif l.op == "g" and l.args[1].op in ("kv", "del") and is_const(l.args[1].args[0]):
                run.append(l)
            else:
                res.extend(sorted(run, key=_ckey))
                run = []
                res.append(l)
        res.extend(sorted(run, key=_ckey))
        if len(res) == 1 and res[0].op == "rest":
            return res[0].args[0]
        for n, m in enumerate(res):
            if m.op == "many" and len(m.args[2]) == 1 and m.args[2][0].op == "kv":
                h, dom, (l,) = m.args
                i = mk("bv", h, 0)
                if l.args[0].op == "key" and dom.op == "len" and dom.args[0] is l.args[0].args[0] and l.args[0].args[1] is i and \
                        l.args[1] is index(dom.args[0], l.args[0]):
                    if len(res) == 1:
                        return dom.args[0]
                    res[n] = mk("rest", dom.args[0])
        return t if tuple(res) == t.args else mk("dict", *res)

    def r_rest(self, t):
        # d or {} / d if d is not None else {}
        x = t.args[0]
        if x.op == "ite" and x.args[2].op == "dict" and not x.args[2].args and x.args[0] is x.args[1]:
            return mk("rest", ite(isnone(x.args[0]), x.args[2], x.args[0]))
        return t

    def r_list(self, t):
        if len(t.args) == 1 and t.args[0].op == "many":
            h, dom, ls = t.args[0].args
            if len(ls) == 1 and ls[0].op == "el" and dom.op == "len" and ls[0].args[0] is index(dom.args[0], mk("bv", h, 0)):
                return dom.args[0]
        if len(t.args) == 1 and t.args[0].op == "ext":
            return t.args[0].args[0]
        return t


def _ckey(l):
    if l.op == "g":
        l = l.args[1]
    return repr(l.args[0].args), l.id


def expand(x, ax):
    if ax == -1:
        ax = 1
    return mk("expand", x, ax)


def is_many_el(t):
    return t.op == "list" and len(t.args) == 1 and t.args[0].op == "many" and len(t.args[0].args[2]) == 1 and \
        t.args[0].args[2][0].op == "el"


def _coef(x):
    if x.op == "mul" and is_num(x.args[0]):
        r = x.args[1:]
        return cval(x.args[0]), (r[0] if len(r) == 1 else mk("mul", *r))
    if is_num(x):
        return 0, None
    return 1, x


def _edge(x):
    """a[1:] / a[:-1] (possibly along a later axis) -> (array, axis marker, 'hi'|'lo')"""
    b, k = x.args
    lead = 0
    if k.op == "tuple":
        ks = list(k.args)
        if all(y is FULL or y.op == "ellipsis" for y in ks[:-1]):
            lead = "last"
            k = ks[-1]
        else:
            return None
    if k is mk("slice", const(1), NONE, NONE):
        return b, lead, "hi"
    if k is mk("slice", NONE, const(-1), NONE):
        return b, lead, "lo"
    return None
