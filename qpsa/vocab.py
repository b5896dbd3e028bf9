"""Vocabulary rule: what an undecided pair of outcome terms is made of.

Two computations over the very same ingredients (inputs, attributes, library operations, keys) which are
not equal differ in constants, wiring, indices or arithmetic; a computation that lost an input or an
operation of its accepted definition and gained nothing in exchange lost a step.  Differences that are
only a matter of layout (wrappers, reshapes, the axis -1 of an array that may be 2-D) are neutral: both
terms are first brought to a soft form without them, and when the soft forms agree nothing is claimed."""
from fractions import Fraction
from .terms import T, mk, const, cval, is_const, is_num, NONE, TRUE, FALSE, walk, rebuild, children, show, subst
from .norm import add, mul, neg, bite
from .compare import Edit, MAYBE, NEUTRAL_KW, SOFT_WRAP, SOFT_METH

LAYOUT = {"numpy.array", "numpy.asarray", "numpy.squeeze", "numpy.ravel", "numpy.reshape", "numpy.atleast_1d", "numpy.atleast_2d",
          "float", "int", "bool", "str", "list", "tuple", "numpy.broadcast_to", "numpy.float64", "iter", "dict", "numpy.copy", "copy.copy",
          "copy.deepcopy", "numpy.expand_dims", "numpy.nan_to_num", "numpy.float32", "numpy.int64", "numpy.ascontiguousarray", "numpy.bool_"}
LAYOUT_METH = {"astype", "reshape", "ravel", "squeeze", "flatten", "copy", "tolist", "item", "items", "keys", "values", "view",
               "decode", "encode", "__len__"}
LAYOUT_FUN = {"reshape_to_pdf_size", "reshape_to_pdf_shape"}
FULLS = None
# constructs whose comparison depends on how a loop was written
LOOPY = {"fold", "carried", "mu", "whilecond", "brk", "popped", "sent", "star", "r", "exc", "cbound", "ctx"}
BIND = {"many", "sumof", "any", "fill", "first", "last", "lam"}
# not counted as ingredients: kinds of tests and measures of layout
QUIET = {"isnone", "isinst", "in", "not", "and", "or", "ite", "dim", "lt", "eq", "add", "mul", "pow", "tuple", "list", "el", "kv", "g", "const",
         "index", "slice", "bv", "fv", "self", "dict", "rest", "ext", "set", "mod", "floordiv", "setitem", "ev", "key", "getdef", "expand", "copyof",
         "concat", "fstr", "fmt", "mindom", "bottom", "del", "yield"}


class Soft:
    def __init__(self, canon):
        self.canon = canon
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = t
            r = self.memo[t] = self.canon(self.go(t))
        return r

    def go(self, t):
        o, a = t.op, t.args
        if o == "call" and isinstance(a[0], str):
            if a[0] in LAYOUT:
                base = a[1][0] if a[1] else next((v for k, v in a[2] if k in ("a", "object", "x", "array", "m")), None)
                if base is not None:
                    return self(base)
            kw = []
            for k, v in a[2]:
                if k in NEUTRAL_KW or k in ("dtype", "copy", "order"):
                    continue
                v = self(v)
                if k == "axis" and is_const(v) and cval(v) in (-1, -2):
                    v = const(cval(v) + 2)
                kw.append((k, v))
            return mk("call", a[0], tuple(self(x) for x in a[1]), tuple(kw))
        if o == "meth" and a[0] in LAYOUT_METH:
            return self(a[1])
        if o == "icall" and a[0] in LAYOUT_FUN:
            return self(next((v for n, v in a[1] if n == "vals"), a[1][0][1]))
        if o == "expand":
            return self(a[0])
        if o == "add":
            t = const(0)
            for x in a:
                t = add(t, self(x))
            return t
        if o == "attr" and a[1] == "npdf":
            return mk("dim", self(a[0]))
        if o == "meth" and a[0] == "sf" and len(a[2]) == 1 and not a[3]:
            return add(const(1), neg(mk("meth", "cdf", self(a[1]), tuple(self(x) for x in a[2]), ())))
        if o == "index" and a[0].op == "call" and a[0].args[0] == "numpy.unique" and is_const(a[1]) and a[1].args[0] == "int":
            outs = ["values"] + [n for n in ("index", "inverse", "counts") if any(k == "return_" + n and v is TRUE for k, v in a[0].args[2])]
            ar = next((v for k, v in a[0].args[2] if k == "ar"), None)
            rest = [k for k, _ in a[0].args[2] if k != "ar" and not k.startswith("return_")]
            n = cval(a[1])
            if len(outs) > 1 and ar is not None and not rest and -len(outs) <= n < len(outs):
                if outs[n] == "values":
                    return mk("call", "numpy.unique", (), (("ar", self(ar)),))
                return mk("call", "numpy.unique#" + outs[n], (), (("ar", self(ar)),))
        if o == "key" and len(a) == 2:
            return mk("index", self(a[0]), self(a[1]))
        if o in ("len", "size"):
            return mk("dim", self(a[0]))
        if o == "ndim":
            return mk("dim", mk("dim", self(a[0])))
        if o == "index":
            if a[0].op == "shape":
                return mk("dim", self(a[0].args[0]))
            b, k = self(a[0]), self.key(a[1])
            if k is None:
                return b
            if b.op == "dim":
                return b
            return mk("index", b, k)
        if o == "shape":
            return mk("dim", self(a[0]))
        return rebuild(t, self)

    def key(self, k):
        """index with the parts that select everything left out"""
        parts = k.args if k.op == "tuple" else (k,)
        keep = []
        for p in parts:
            if p.op == "slice" and all(x is NONE for x in p.args):
                continue
            if p is NONE or (p.op == "ref" and "llipsis" in str(p.args[0])) or (is_const(p) and cval(p) is Ellipsis):
                continue
            if is_const(p) and p.args[0] == "int" and cval(p) == -1:
                p = const(1)
            keep.append(self(p))
        if not keep:
            return None
        return keep[0] if len(keep) == 1 else mk("tuple", *keep)


def labels(t):
    """-> ingredients, binders"""
    out, bind = set(), set()
    for x in walk(t):
        o, a = x.op, x.args
        if o == "call":
            if isinstance(a[0], str):
                if "#" in a[0]:
                    out.add(("call", a[0].split("#")[0]))
                    out.add(("kw", a[0].split("#")[0], "ar"))
                if a[0] not in SOFT_WRAP or a[0] in REARRANGES:
                    out.add(("call", a[0]))
                for k, v in a[2]:
                    out.add(("kw", a[0], k))
        elif o in ("meth", "smeth", "supercall"):
            if isinstance(a[0], str) and a[0] not in SOFT_METH:
                out.add((o, a[0]))
        elif o in ("icall", "new"):
            out.add((o, a[0]))
        elif o == "attr":
            out.add((o, a[1].lstrip("_")))
        elif o in ("param", "ref", "gref", "fref", "cref", "mref"):
            out.add((o, a[0]))
        elif o == "enum":
            out.add((o,) + tuple(str(y) for y in a))
        elif o == "const" and a[0] == "str":
            out.add(("str", a[1]))
        elif o == "raised":
            out.add((o, str(a[0]) if not isinstance(a[0], T) else "?"))
        elif o in BIND:
            bind.add(o)
        elif o in QUIET or o in LOOPY:
            pass
        else:
            out.add(("op", o))
    return out, bind


def loopy(t):
    return any(x.op in LOOPY for x in walk(t))


def solid_label(l, other):
    """an ingredient whose loss or gain means something"""
    if l[0] in ("kw",):
        return False
    if l[0] == "call":
        for g in MAYBE:
            if l[1] in g and any(m[0] == "call" and m[1] in g for m in other):
                return False
        return l[1] not in SOFT_WRAP
    if l[0] == "str":
        return False
    return True


NUMERIC = {"numpy." + n for n in ("mean sum max min std var median abs exp log log10 sqrt floor ceil round maximum minimum cumsum cumprod "
                                  "diff prod clip trapz sort flip roll sign nanmean nansum nanmax nanmin nan_to_num ptp argmax argmin gradient "
                                  "interp searchsorted unique tanh power quantile percentile").split()}


# operations which only arrange values: a difference around them is a matter of how the result is put together
STRUCT = {"ite", "dict", "list", "setitem", "mut", "new", "g", "getdef", "rest", "ext", "kv", "set", "concat", "fstr", "yield", "ev", "in", "isinst",
          "isnone", "exc", "mindom", "key", "expand", "supercall"} | BIND
# operations of a pair that count when they are lost or gained
SHAPING = {"numpy." + n for n in ("zeros ones empty full zeros_like ones_like empty_like full_like where broadcast_to concatenate stack hstack vstack "
                                  "tile repeat split array_split unique atleast_1d atleast_2d swapaxes transpose moveaxis append insert delete take "
                                  "array_equal diff isin flatnonzero nonzero arange linspace vectorize meshgrid newaxis ndarray argsort sort").split()} | SOFT_WRAP
ADDED = {"numpy." + n for n in ("mean sum max min std var median abs exp log log10 sqrt floor ceil round cumsum cumprod prod trapz flip roll sign "
                                "nansum nanmean tanh ptp argmax argmin").split()}


# keyword arguments which change what an operation computes
MEANING = set("rtol atol ddof side right left bounds_error fill_value k s endpoint weights density method equal_nan base where assume_sorted kind ext der nu "
              "covariance_type n_components reg_covar out_of_bounds interpolation loc scale axis".split())
REARRANGES = {"numpy.unique", "numpy.sort"}


def emptiness(c):
    """a test for nothing being there (or for what kind of thing is there)"""
    while c.op == "not":
        c = c.args[0]
    if c.op in ("and", "or"):
        return any(emptiness(x) for x in c.args)
    return c.op in ("isnone", "isinst", "in", "param", "attr", "exc", "call", "meth") or c.op == "eq" and any(is_const(x) for x in c.args) and \
        any(x.op in ("dim", "const", "str") or is_const(x) and cval(x) in (0, None, "") for x in c.args) and any(is_const(x) and cval(x) in (0, None, "") for x in c.args)


def split_off(c, a, other):
    """a case of its own in which an input of the accepted value no longer matters"""
    if emptiness(c) or loopy(other) or loopy(c) or other.op in ("raised", "const") or any(z.op == "raised" for z in walk(other)):
        return None
    la, lo, lc = labels(a)[0], labels(other)[0], labels(c)[0]
    gone = {l for l in la - lo - lc if l[0] == "param"}
    if gone and not any(z.op == "carried" for z in walk(a)):
        return marked(Edit("argument ignored in a case of its own", mk("ref", ", ".join(sorted(l[1] for l in gone))), c, True), gone, "gone")
    return None


def bare_key(k):
    if k.op == "tuple":
        ps = [p for p in k.args if not (p.op == "slice" and all(x is NONE for x in p.args)) and p.op != "ellipsis"]
        return ps[0] if len(ps) == 1 else mk("tuple", *ps) if ps else None
    return k


def head(t):
    """what a value is made by"""
    if t.op in ("call", "icall", "meth", "smeth") and isinstance(t.args[0], str):
        return t.op, t.args[0]
    if t.op == "pow" and head(t.args[0]):
        return ("pow", t.args[1]) + head(t.args[0])
    if t.op == "index" and head(t.args[0]):
        return ("index",) + head(t.args[0])
    return None


def role(t):
    """what kind of part of a sum or product a value is"""
    if t.op == "pow":
        return ("pow", t.args[1].id) + role(t.args[0])
    if t.op in ("expand", "setitem", "index"):
        return (t.op,) + role(t.args[0])
    return (t.op, t.args[0]) if t.op in ("call", "icall", "meth", "smeth") and isinstance(t.args[0], str) else (t.op,)


def settled(c):
    """made of tests, not of values taken as tests"""
    if c.op in ("and", "or", "not"):
        return all(settled(x) for x in c.args)
    return c.op in ("lt", "le", "eq", "isnone", "in", "isinst", "exc", "any")


def outcomes(t, out, n=0):
    if t.op == "ite" and n < 8:
        outcomes(t.args[1], out, n + 1)
        outcomes(t.args[2], out, n + 1)
    elif t not in out:
        out.append(t)
    return out


def two_ways(cmp_, a, b):
    """two decisions between the same two results -> the conditions for the first of them"""
    la, lb = outcomes(a, []), outcomes(b, [])
    if len(la) != 2 or len(lb) != 2:
        return None
    if not (cmp_.eq(la[0], lb[0]) and cmp_.eq(la[1], lb[1])):
        lb.reverse()
        if not (cmp_.eq(la[0], lb[0]) and cmp_.eq(la[1], lb[1])):
            return None
    def when(t, x):
        if t.op == "ite":
            return bite(t.args[0], when(t.args[1], x), when(t.args[2], x))
        return TRUE if t is x else FALSE
    fa, fb = when(a, la[0]), when(b, lb[0])
    if fa.op in ("ite",) or fb.op in ("ite",) or is_const(fa) or is_const(fb):
        return None
    while fa.op == "not" and fb.op == "not":
        fa, fb = fa.args[0], fb.args[0]
    return fa, fb


def pairs(cmp_, a, b, out, depth=0):
    """the smallest parts by which two soft forms differ"""
    if a is b or cmp_.eq(a, b):
        return
    if len(out) > 12:
        return
    if b.op == "ite" and a.op != "ite":
        # a case split around the accepted value: only the other case differs
        _, v, w = b.args
        for keep, other in ((w, v), (v, w)):
            if cmp_.eq(a, keep) and not cmp_.eq(a, other):
                e = split_off(b.args[0], a, other)
                if e is not None:
                    out.append((e, None))
                    return
                return pairs(cmp_, a, other, out, depth + 1)
    for t, o, flip in ((a, b, False), (b, a, True)):
        # one decision of the two is taken alike on one side: only the other side differs
        if t.op == "ite" and depth < 12 and settled(t.args[0]) and any(z is t.args[0] or z.op == "ite" for z in walk(o)):
            c, v, w = t.args
            ov, ow = cmp_.under(o, c, True), cmp_.under(o, c, False)
            if (ov is not o or ow is not o) and (cmp_.eq(v, ov) != cmp_.eq(w, ow)):
                x, y = (w, ow) if cmp_.eq(v, ov) else (v, ov)
                if t is a or not emptiness(c) or any(z is c for z in walk(o)):
                    return pairs(cmp_, *((y, x) if flip else (x, y)), out, depth + 1)
    if a.op == "ite" and b.op == "ite":
        f = two_ways(cmp_, a, b)
        if f is not None:
            return pairs(cmp_, f[0], f[1], out, depth + 1)
    if depth < 40 and a.op == b.op:
        o = a.op
        if o == "call" and a.args[0] == b.args[0] == "numpy.where":
            ka, kb = dict(a.args[2]), dict(b.args[2])
            if set(ka) == set(kb) == {"condition", "x", "y"} and cmp_.eq(ka["x"], kb["y"]) and cmp_.eq(ka["y"], kb["x"]):
                c = kb["condition"]
                if other_choice(a, b):
                    out.append((a, b))
                    return
                return pairs(cmp_, ka["condition"], c.args[0] if c.op == "not" else mk("not", c), out, depth + 1)
        if o == "call" and a.args[0] == b.args[0] and a.args[0] in ("min", "max") and len(a.args[1]) == len(b.args[1]) == 2 and \
                not a.args[2] and not b.args[2]:
            (p, q), (r, t) = a.args[1], b.args[1]
            for x, y, u, v in ((p, r, q, t), (p, t, q, r), (q, t, p, r), (q, r, p, t)):
                if cmp_.eq(x, y):
                    return pairs(cmp_, u, v, out, depth + 1)
        if o in ("add", "mul", "and", "or"):
            xs, ys = list(a.args), list(b.args)
            for x in list(xs):
                for y in ys:
                    if cmp_.eq(x, y):
                        xs.remove(x)
                        ys.remove(y)
                        break
            if len(xs) == 1 and len(ys) == 1:
                return pairs(cmp_, xs[0], ys[0], out, depth + 1)
            if o in ("add", "mul") and len(xs) == len(ys) and len(xs) in (2, 3) and (all(x.op == y.op and labels(x) == labels(y) for x, y in zip(xs, ys)) or
                                                                                     all(head(x) and head(x) == head(y) for x, y in zip(xs, ys))):
                for x, y in zip(xs, ys):
                    pairs(cmp_, x, y, out, depth + 1)
                return
            if o in ("add", "mul") and len(xs) == len(ys) and len(xs) in (2, 3):
                kx, ky = {role(x): x for x in xs}, {role(y): y for y in ys}
                if len(kx) == len(xs) and set(kx) == set(ky):
                    for k in sorted(kx, key=repr):
                        pairs(cmp_, kx[k], ky[k], out, depth + 1)
                    return
            if len(xs) < len(a.args) and xs and ys:
                out.append((mk(o, *xs) if len(xs) > 1 else xs[0], mk(o, *ys) if len(ys) > 1 else ys[0]))
                return
            out.append((a, b))
            return
        if o == "eq":
            (p, q), (r, t) = a.args, b.args
            if cmp_.eq(p, t) or cmp_.eq(q, r):
                n = []
                for x, y in ((p, t), (q, r)):
                    pairs(cmp_, x, y, n, depth + 1)
                out.extend(n)
                return
        if o == "ite":
            if cmp_.eq(a.args[1], b.args[2]) and cmp_.eq(a.args[2], b.args[1]):
                c = b.args[0]
                return pairs(cmp_, a.args[0], c.args[0] if c.op == "not" else mk("not", c), out, depth + 1)
            n = [(x, y) for x, y in zip(a.args, b.args) if not cmp_.eq(x, y)]
            if len(n) == 1 or a.args[0] is b.args[0]:
                for x, y in n:
                    pairs(cmp_, x, y, out, depth + 1)
                return
            out.append((a, b))
            return
        if o == "dict":
            if len(a.args) == len(b.args) and not set(a.args) == set(b.args) and all(x.op == y.op for x, y in zip(a.args, b.args)):
                for x, y in zip(a.args, b.args):
                    pairs(cmp_, x, y, out, depth + 1)
                return
            out.append((a, b))
            return
        if o == "setitem" and not cmp_.eq(a.args[1], b.args[1]):
            ka, kb = (bare_key(z.args[1]) for z in (a, b))
            if ka is not None and kb is not None and any(z.op == "index" and cmp_.eq(z.args[1], kb) for z in walk(a.args[2])) and any(z.op == "index" and cmp_.eq(z.args[1], ka) for z in walk(b.args[2])) and \
                    not any(z.op == "index" and cmp_.eq(z.args[1], ka) for z in walk(a.args[2])):
                out.append((sure(Edit("the places read and written are exchanged", a, b, True)), None))
                return
        fa, fb = aligned(a), aligned(b)
        if fa is not None and fb is not None and len(fa) == len(fb) and all(
                (p == q) if not isinstance(p, T) or not isinstance(q, T) else True for p, q in zip(fa, fb)):
            n = [(p, q) for p, q in zip(fa, fb) if isinstance(p, T) and not cmp_.eq(p, q)]
            if n and (len(n) == 1 or o in ("tuple", "list", "many", "new", "icall", "smeth", "g", "setitem", "kv", "call", "meth")):
                for p, q in n:
                    pairs(cmp_, p, q, out, depth + 1)
                return
    out.append((a, b))


def replaced(cmp_, a, b):
    """-> (x, y) when b is a with x written as y wherever it occurs, or None"""
    out, seen = [], set()
    def go(p, q, depth):
        if p is q or (p, q) in seen or len(out) > 1:
            return
        seen.add((p, q))
        if cmp_.eq(p, q):
            return
        if depth < 60 and p.op == q.op:
            if p.op in ("add", "mul", "and", "or"):
                xs, ys = list(p.args), list(q.args)
                for x in list(xs):
                    for y in ys:
                        if cmp_.eq(x, y):
                            xs.remove(x)
                            ys.remove(y)
                            break
                if len(xs) == 1 and len(ys) == 1:
                    return go(xs[0], ys[0], depth + 1)
                if xs and ys:
                    p, q = (mk(p.op, *z) if len(z) > 1 else z[0] for z in (xs, ys))
            else:
                fa, fb = aligned(p), aligned(q)
                if len(fa) == len(fb) and all((u == v) if not isinstance(u, T) or not isinstance(v, T) else True for u, v in zip(fa, fb)):
                    n = [(u, v) for u, v in zip(fa, fb) if isinstance(u, T) and not cmp_.eq(u, v)]
                    if n:
                        for u, v in n:
                            go(u, v, depth + 1)
                        return
        if (p, q) not in out:
            out.append((p, q))
    go(a, b, 0)
    return out[0] if len(out) == 1 and out[0][0] is not a else None


def aligned(t):
    """children, with everything that is not a term as a marker"""
    out = []
    def go(x):
        if isinstance(x, tuple):
            out.append(("(", len(x)))
            for y in x:
                go(y)
        else:
            out.append(x)
    go(t.args)
    return out


def scalar(t):
    return not any(x.op in STRUCT or (x.op == "call" and (not isinstance(x.args[0], str) or x.args[0] in SHAPING)) for x in walk(t))


def weight(t):
    return sum(1 for _ in walk(t))


LOSSY = {"numpy.float32": "single", "numpy.float16": "half", "numpy.int32": "int", "numpy.int16": "int", "numpy.int8": "int", "numpy.int64": "int", "int": "int",
         "numpy.uint8": "int", "numpy.uint16": "int", "numpy.uint32": "int", "f4": "single", "<f4": "single", "float32": "single", "f2": "half", "float16": "half",
         "i4": "int", "i8": "int", "i2": "int", "int32": "int", "numpy.single": "single", "numpy.half": "half", "numpy.integer": "int", "numpy.intp": "int"}


def kind_of(t):
    """the narrow type a type term names"""
    if is_const(t) and t.args[0] == "str":
        return LOSSY.get(t.args[1])
    if t.op in ("ref", "gref") and isinstance(t.args[0], str):
        return LOSSY.get(t.args[0])
    return None


def casts(t):
    """narrowing conversions -> {kind: a value converted}"""
    out = {}
    for x in walk(t):
        o, a = x.op, x.args
        k = None
        if o == "meth" and a[0] in ("astype", "view") and a[2]:
            k, v = kind_of(a[2][0]), a[1]
        elif o == "call" and isinstance(a[0], str):
            v = a[1][0] if a[1] else next((v for n, v in a[2] if n in ("a", "object", "x", "array")), None)
            if a[0] in LOSSY:
                k = LOSSY[a[0]]
            else:
                k = next((kind_of(y) for n, y in a[2] if n == "dtype"), None)
        if k is None and o in ("call", "fcall") and len(a) > 2 and isinstance(a[2], tuple):
            k = next((kind_of(y.args[0]) for n, y in a[2] if n == "otypes" and isinstance(y, T) and y.op == "list" and len(y.args) == 1), None)
            v = x if k else None
        if k and v is not None:
            out.setdefault(k, v)
        if k == "int" and v is None:
            out.setdefault(k, x)
    return out


def narrowed(a, b):
    """a value is stored with less precision than before"""
    ca, cb = casts(a), casts(b)
    for k in ("half", "single", "int"):
        if k in cb and k not in ca:
            if k == "int" and (any(x.op in ("dim", "len", "size", "shape", "ndim", "floordiv", "enum") for x in walk(cb[k])) or "single" in ca):
                continue
            if k == "int" and cb[k].op in ("lt", "le", "eq", "not", "and", "or", "isnone", "in", "isin"):
                continue
            if k == "int" and any(x.op == "call" and x.args[0] in ("numpy.prod", "numpy.floor", "numpy.ceil", "numpy.round", "numpy.searchsorted", "round")
                                  for x in walk(cb[k])):
                continue
            return Edit("stored with a narrower type", cb[k], mk("ref", k), True)
    return None


def fixed(k):
    return is_const(k) and k.args[0] == "int"


def whole_slice(k):
    return k.op == "slice" and all(x is NONE for x in k.args)


def reads_of(t):
    """2-D reads -> {base: set of 'column' | 'row'}, read otherwise: 'other'"""
    out, inner = {}, set()
    for z in walk(t):
        if z.op != "index":
            continue
        b, k = z.args
        if k.op == "tuple" and len(k.args) == 2 and k.args[0].op == "slice" and not whole_slice(k.args[1]):
            out.setdefault(b, set()).add("column")
        elif fixed(k) or k.op == "tuple" and len(k.args) == 2 and fixed(k.args[0]):
            out.setdefault(b, set()).add("row")
        else:
            out.setdefault(b, set()).add("other")
    return out


def one_row(a, b):
    """the columns of a table became the entries of one of its rows"""
    ra, rb = reads_of(a), reads_of(b)
    for base, how in ra.items():
        if "column" in how and "row" not in how and rb.get(base) == {"row"} and base.op in ("attr", "param", "icall", "call", "setitem", "mul"):
            return sure(Edit("one row stands for all rows", base, b, True))
    return None


def sizes_only(a, b):
    """a comparison of shapes became one of sizes"""
    def pairs_of(t, op):
        return {frozenset(x.args[0] for x in z.args) for z in walk(t) if z.op == "eq" and all(x.op == op for x in z.args)}
    for p in pairs_of(a, "shape") - pairs_of(b, "shape"):
        if p in pairs_of(b, "size") and not any(z.op in ("shape", "len", "ndim") and z.args[0] in p for z in walk(b)):
            x, y = (tuple(p) * 2)[:2]
            return sure(Edit("a comparison of shapes became one of sizes", mk("eq", mk("shape", x), mk("shape", y)), mk("eq", mk("size", x), mk("size", y)), True))
    return None


def counts_only(a, b):
    """the number of dimensions became a number of rows; shapes became first dimensions"""
    def rows(z):
        return z.args[0] if z.op == "len" else z.args[0].args[0] if z.op == "index" and z.args[0].op == "shape" and fixed(z.args[1]) else None
    def tests(t):
        return [z for z in walk(t) if z.op == "eq"]
    ta, tb = tests(a), tests(b)
    nd = {(x.args[0], c) for z in ta for x, c in (z.args, z.args[::-1]) if x.op == "ndim" and is_const(c)}
    for z in tb:
        for x, c in (z.args, z.args[::-1]):
            v = rows(x)
            if v is not None and (v, c) in nd and not any(q.op == "ndim" and q.args[0] is v for q in walk(b)) and z not in ta:
                return sure(Edit("the number of dimensions became a number of rows", mk("eq", mk("ndim", v), c), z, True))
    sh = {frozenset(x.args[0] for x in z.args) for z in ta if all(x.op == "shape" for x in z.args)}
    for z in tb:
        vs = [rows(x) for x in z.args]
        if None not in vs and frozenset(vs) in sh and z not in ta and \
                not any(q.op == "eq" and q is not z and any(set(vs) & set(walk(x)) for x in q.args) for q in tb) and \
                not any(q.op in ("size", "ndim") and q.args[0] in vs for q in walk(b)):
            return sure(Edit("a comparison of shapes became one of single dimensions", mk("eq", *(mk("shape", v) for v in vs)), z, True))
    return None


def values_of(t, seen=None):
    """the subterms that make up the value, conditions apart"""
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    yield t
    for i, c in enumerate(children(t)):
        if t.op in ("ite", "g") and c is t.args[0]:
            continue
        yield from values_of(c, seen)


def own_level(v):
    yield v
    for c in children(v):
        if c.op in ("add", "mul", "pow", "call", "const", "meth"):
            yield from own_level(c)


def distinct(z):
    if z.op == "index" and is_const(z.args[1]) and cval(z.args[1]) == 0:
        z = z.args[0]
    return z.op == "call" and z.args[0] in ("set", "frozenset", "numpy.unique") or z.op == "set" and len(z.args) == 1 and z.args[0].op == "many"


def distinct_only(a, b):
    """repeated values are counted once"""
    if any(distinct(z) or z.op == "call" and z.args[0] in ("numpy.bincount", "collections.Counter") for z in walk(a)):
        return None
    for z in values_of(b):
        if z.op in ("len", "size") and distinct(z.args[0]):
            return sure(Edit("repeated values are counted once", z.args[0], z, True))
    return None


ROUNDS = {"round", "numpy.round", "numpy.rint", "numpy.around"}


def cut_short(a, b):
    """rounded to the nearest number before, cut off now"""
    def rounds(t):
        return sum(z.op == "call" and z.args[0] in ROUNDS or z.op == "ref" and z.args[0] in ROUNDS or z.op == "gref" and z.args[0] in ROUNDS or z.op == "meth" and z.args[0] == "round" for z in walk(t))
    if rounds(a) <= rounds(b):
        return None
    old = {z for z in walk(a) if z.op == "meth" and z.args[0] == "astype"}
    for z in walk(b):
        v = z.args[1] if z.op == "meth" and z.args[0] == "astype" and "int" in show(z, 4) else z.args[1][0] if z.op == "call" and z.args[0] == "int" and z.args[1] else None
        if v is not None and z not in old and v.op in ("mul", "pow") and not rounds(v) and not any(
                q.op == "call" and q.args[0] in ("numpy.floor", "numpy.ceil", "numpy.fix", "divmod") or q.op == "floordiv" or is_const(q) and cval(q) == 0.5 for q in own_level(v)):
            return sure(Edit("rounded before, cut off now", mk("ref", "round"), z, True))
    return None


def whole_size(t):
    """sizes of evaluations (points times PDFs)"""
    out = set()
    for z in walk(t):
        if z.op == "size":
            v = z.args[0]
            if v.op == "index":
                v = v.args[0]
            if v.op in ("meth", "smeth") and v.args[0] in ("pdf", "cdf", "gridded", "logpdf"):
                out.add(z)
        elif z.op == "len" and z.args[0].op == "index" and z.args[0].args[0].op in ("meth", "smeth") and z.args[0].args[0].args[0] == "gridded":
            out.add(z)
    return out


def width(z):
    return z.op == "attr" and "width" in z.args[1] or z.op == "icall" and z.args[0] == "bin_widths" or z.op == "call" and z.args[0] in ("numpy.diff", "numpy.ediff1d", "numpy.gradient")


def widths(t):
    """-> widths of one fixed cell, widths of all cells"""
    one, every = set(), set()
    seen, todo = set(), [t]
    while todo:
        z = todo.pop()
        if z in seen:
            continue
        seen.add(z)
        if z.op == "index" and width(z.args[0]):
            if fixed(z.args[1]):
                one.add(z)
                todo.extend(children(z.args[0]))
                continue
        elif z.op == "add" and len(z.args) == 2:
            ps = [p.args[1] if p.op == "mul" and len(p.args) == 2 and p.args[0] is const(-1) else p for p in z.args]
            if all(p.op == "index" and fixed(p.args[1]) for p in ps) and ps[0].args[0] is ps[1].args[0] and any(p.op == "mul" for p in z.args) and \
                    abs(cval(ps[0].args[1]) - cval(ps[1].args[1])) == 1:
                one.add(z)
        if width(z):
            every.add(z)
        todo.extend(children(z))
    return one, every


def one_width(x, y):
    """the width of one cell stands for those of all"""
    if any(z.op == "call" and z.args[0] in ("numpy.allclose", "numpy.isclose", "numpy.all", "numpy.linspace", "numpy.arange") for t in (x, y) for z in walk(t)):
        return None
    ox, wx = widths(x)
    oy, wy = widths(y)
    if not oy or ox or wy:
        return None
    if wx or any(z.op == "index" and z.args[1].op == "slice" and z.args[1].args[0] is const(1) for z in walk(x)) and \
            any(z.op == "index" and z.args[1].op == "slice" and z.args[1].args[1] is const(-1) for z in walk(x)):
        return sure(Edit("the width of one cell stands for all", x, sorted(oy, key=weight)[0], True))
    return None


SPELLING = {"lower", "upper", "title", "capitalize", "casefold", "swapcase", "strip", "lstrip", "rstrip"}


def spellings(t):
    return {z.args[0] for z in walk(t) if z.op == "meth" and z.args[0] in SPELLING or z.op == "call" and z.args[0] in ("os.path.basename", "os.path.normpath", "os.path.splitext")}


FUNCTIONS = {"numpy." + n for n in "exp log log10 log2 log1p expm1 tanh round floor ceil".split()} | {"numpy.linalg.norm", "scipy.linalg.norm"}
DISTRIBUTION = set("pdf cdf ppf sf isf logpdf logcdf logsf inverse_cdf rvs".split())
STATISTIC = set("mean std var max min mode count".split())


def apart(t):
    """the constructor's parameters, kept apart from those of other methods"""
    if t.op == "param":
        return mk("attr", mk("ref", "__init__"), t.args[0])
    if t.op == "getdef" and t.args[0].op == "param" and is_const(t.args[1]) and is_const(t.args[2]):
        return mk("attr", mk("ref", "__init__"), f"{cval(t.args[1])}={cval(t.args[2])}")
    return rebuild(t, apart)


def written_out(t, made, soft):
    """a term with the attributes which only the constructor sets replaced by their values"""
    def go(z):
        if z.op == "attr" and z.args[0].op == "self" and z.args[1] in made:
            v = made[z.args[1]]
            if not loopy(v) and weight(v) < 200:
                return v
        return rebuild(z, go)
    return soft(go(t))


def judge(cmp_, soft, a, b, maker_a=None, maker_b=None, sets={}):
    """-> Edit (decisive) or None"""
    if a is None or b is None or not isinstance(a, T) or not isinstance(b, T):
        return None
    e = narrowed(a, b) or laid_out(a, b) or one_row(a, b) or sizes_only(a, b) or counts_only(a, b) or distinct_only(a, b) or cut_short(a, b) or converted(a, b)
    if e is not None:
        return e
    sa, sb = soft(a), soft(b)
    if sa is sb or cmp_.eq(sa, sb):
        return None
    e = one_number(cmp_, soft, a, b)
    if e is not None:
        return e
    ps = []
    pairs(cmp_, sa, sb, ps)
    if not ps or len(ps) > 12:
        return None
    e = judge_all(cmp_, sa, sb, ps, a, b, maker_a, maker_b, sets)
    if e is None and (len(ps) > 1 or ps[0][1] is not None):
        one = replaced(cmp_, sa, sb)
        if one is not None and one != tuple(ps[0]):
            e = judge_all(cmp_, sa, sb, [one], a, b, maker_a, maker_b, sets)
    return e


WORTH = {"sys.float_info.epsilon": 2.220446049250313e-16, "numpy.pi": 3.141592653589793, "math.pi": 3.141592653589793, "sys.float_info.max": 1.7976931348623157e308}


def laid_out(a, b):
    """the values are laid out column by column where it was row by row"""
    def f(t):
        return {z for z in walk(t) if z.op in ("call", "meth") and z.args[0] in ("reshape", "ravel", "flatten", "numpy.reshape", "numpy.ravel", "numpy.resize") and
                any(k == "order" and is_const(v) and cval(v) in ("F", "A", "K") for k, v in z.args[-1] if isinstance(k, str))}
    n = f(b)
    if n and not f(a):
        return Edit("laid out in another order", a, sorted(n, key=weight)[0], True)
    return None


def one_number(cmp_, soft, a, b):
    """one number stands where there was another number or a named one, and nothing else is different"""
    la, lb = ({z for z in walk(t) if is_num(z) and not isinstance(cval(z), bool) or z.op in ("gref", "ref") and isinstance(z.args[0], str)} for t in (a, b))
    gone, new = la - lb, lb - la
    if len(gone) != 1 or len(new) != 1:
        return None
    x, y = gone.pop(), new.pop()
    if not is_num(y) or x.op in ("gref", "ref") and (x.args[0] not in WORTH or WORTH[x.args[0]] == cval(y)):
        return None
    c = subst(b, {y: x})
    if c is a or cmp_.eq(soft(c), soft(a)):
        return Edit("constant changed", x, y, True)
    return None


def buffer_pair(x, y):
    """a table of zeros, and one whose first column is set to zero: only the place where the values go differs"""
    return y is not None and any(u.op == "setitem" and is_num(u.args[2]) and cval(u.args[2]) == 0 and u.args[0].op == "call" and v.op == "call" and
                                 u.args[0].args[0].replace("empty", "zeros") == v.args[0] and u.args[0].args[1:] == v.args[1:] for u, v in ((x, y), (y, x)))


def judge_all(cmp_, sa, sb, ps, a, b, maker_a, maker_b, sets):
    first, open_ = None, []
    if len(set(ps)) > 1 and any(buffer_pair(x, y) for x, y in ps):
        ps = [(x, y) for x, y in ps if not buffer_pair(x, y)] or ps
    if len(set(ps)) == 1 and ps[0][1] is not None:
        first = lone_pair(cmp_, *ps[0], b=sb)
        if first is not None:
            return first
        if conditions_differ(ps[0][0], ps[0][1], sa):
            return Edit("another answer for some of the settings", *ps[0], True)
    for x, y in ps:
        if y is not None and x.op == "attr" and x.args[1] == "cardinality" and y.op == "dim" and whole_size(b) - whole_size(a):
            return Edit("the number of all values stands for the number of points", x, sorted(whole_size(b) - whole_size(a), key=weight)[0], True)
        if y is not None and x.op == "param" and y.op == "attr" and y.args[0].op == "self" and sets.get(y.args[1]) is x:
            return Edit("the value before the change is used", x, y, True)
        e = x if y is None else plain_pair(cmp_, x, y, sa) or further(cmp_, x, y, sa, sb)
        if e is None and not (loopy(x) or loopy(y) or labels(x)[1] != labels(y)[1]):
            e = judge_pair(cmp_, x, y)
        if e is None and maker_a is not None and {z for z in walk(x) if z.op == "attr"} != {z for z in walk(y) if z.op == "attr"}:
            u, v = maker_a(x), maker_b(y)
            if cmp_.eq(u, v):
                continue
            if u is not x or v is not y:
                n = []
                pairs(cmp_, u, v, n)
                if len(n) == 1 and n[0][1] is not None and not (loopy(n[0][0]) or loopy(n[0][1])):
                    e = plain_pair(cmp_, *n[0], u) or further(cmp_, *n[0], u, v) or judge_pair(cmp_, *n[0])
        if e is None:
            open_.append((x, y))
        elif first is None or (not getattr(first, "marks", None) and getattr(e, "marks", None)):
            first = e
    if first is None and len(ps) == 1 and ps[0][1] is not None and sums_differ(cmp_, *ps[0]):
        return Edit("another formula over the same quantities", *ps[0], True)
    if first is None or not open_:
        return first
    # differences elsewhere may compensate a rearrangement, not an operation which occurs nowhere else
    marks = getattr(first, "marks", None)
    if not marks:
        return None
    side = getattr(first, "side")
    for x, y in open_:
        if y is None:
            continue
        la, lb = labels(x)[0], labels(y)[0]
        if marks & ((la - lb) if side == "new" else (lb - la)):
            return None
    if side == "new" and marks & labels(sa)[0] or side == "gone" and marks & labels(sb)[0]:
        return None
    return first


def marked(e, ls, side):
    e.marks, e.side = frozenset(ls), side
    return e


SETS = {"issubset", "issuperset", "intersection", "isdisjoint", "difference"}


def key_sets(x, y):
    """equality of two sets of keys became a one-sided comparison"""
    eqs = [z for z in walk(x) if z.op == "eq" and all(p.op in ("param", "index", "attr", "meth", "call") for p in z.args)]
    one = [z for z in walk(y) if z.op == "meth" and z.args[0] in SETS or z.op == "bitand"]
    if any(z.op == "meth" and z.args[0] in SETS or z.op in ("bitand", "bitxor") for z in walk(x)) or any(z.op == "bitxor" or (
            z.op == "meth" and z.args[0] == "symmetric_difference") for z in walk(y)):
        return None
    for e in eqs:
        if any(z is e or z.op == "eq" and set(z.args) == set(e.args) for z in walk(y)):
            continue
        if all(p.op == "param" for p in e.args):
            for A, B in (e.args, e.args[::-1]):
                ins = {z.args[1] for z in walk(y) if z.op == "in" and len(z.args) == 2}
                if B in ins and A not in ins and not any(z.op in ("eq", "lt", "le") and any(p.op == "dim" for p in z.args) for z in walk(y)) and \
                        not any(z.op == "in" for z in walk(x)):
                    return Edit("equality of two sets became a one-sided comparison", e, y, True)
        for z in one:
            used = set(walk(z))
            if all(p in used for p in e.args) and not (z.op == "meth" and any(q is not z and q.op == "meth" and q.args[0] in SETS for q in one)) and \
                    not any(q.op == "eq" and any(p.op == "dim" for p in q.args) for q in walk(y)):
                return Edit("equality of two sets became a one-sided comparison", e, z, True)
    return None


def truthiness(x, y):
    """None-ness replaced by truth: an empty value is taken for a missing one"""
    n = False
    while x.op == "not" and y.op == "not":
        x, y = x.args[0], y.args[0]
    if x.op == "not":
        x, y = x.args[0], mk("not", y) if y.op != "not" else y.args[0]
    if x.op == "isnone" and y.op == "not" and y.args[0] is x.args[0]:
        return x.args[0]
    return None


def used_as_data(v, t):
    """the value is looked into, measured or calculated with"""
    for z in walk(t):
        o, a = z.op, z.args
        if o in ("index", "key", "len", "size", "shape", "dim", "rest", "ndim", "add", "mul", "pow", "lt") and v in a:
            return True
        if o == "kv" and v is a[1]:
            return True
        if o in ("icall", "call") and isinstance(a[0], str) and a[0].split(".")[-1] in ("slice_dict", "concatenate_dicts", "compare_dicts", "check_array_shapes", "min", "max", "sum"):
            if any(v is q or (isinstance(q, tuple) and v in q) for q in walk_args(z)):
                return True
    return False


def partial_slice(k):
    ks = k.args if k.op == "tuple" else (k,)
    return any(z.op == "slice" and not all(q is NONE for q in z.args) for z in ks) and \
        all(z.op == "ellipsis" or z.op == "slice" and all(is_const(q) for q in z.args) for z in ks)


def unsliced(t):
    """-> (the computation, the part of every operand that it is restricted to) or None"""
    if t.op == "index" and partial_slice(t.args[1]):
        return t.args[0], t.args[1]
    if t.op in ("mul", "add"):
        parts = [z if is_num(z) else unsliced(z) for z in t.args]
        keys = {p[1] for p in parts if isinstance(p, tuple)}
        if len(keys) == 1 and all(isinstance(p, tuple) or isinstance(p, T) for p in parts):
            op = mul if t.op == "mul" else add
            return op(*[p if isinstance(p, T) else p[0] for p in parts]), keys.pop()
    return None


def chain_root(t):
    """the argument which a value is an item, a part or a transposed form of"""
    while t.op == "index" or t.op == "attr" and t.args[1] == "T":
        t = t.args[0]
    return t if t.op == "param" else None


NEARLY = {"numpy.allclose", "numpy.isclose", "math.isclose"}


def nearly(x, y):
    """values had to be equal and may now differ a little"""
    if any(z.op == "call" and z.args[0] in NEARLY for z in walk(x)):
        return None
    for z in walk(y):
        if z.op == "call" and z.args[0] in NEARLY:
            a, b = kwarg(z, "a"), kwarg(z, "b")
            if (a is None or b is None) and len(z.args[1]) >= 2:
                a, b = z.args[1][:2]
            if a is None or b is None:
                continue
            for e in walk(x):
                if e.op == "eq" and set(e.args) == {a, b} or e.op == "call" and e.args[0] == "numpy.array_equal" and {v for _, v in e.args[2]} == {a, b}:
                    return sure(Edit("values that had to be equal may differ a little", e, z, True))
    return None


def walk_args(z):
    from .terms import children
    return list(children(z))


BOOLEAN = {"lt", "eq", "not", "and", "or", "isnone"}
MASKS = {"numpy.isfinite", "numpy.isnan", "numpy.isin", "numpy.isinf", "numpy.logical_and", "numpy.logical_or", "numpy.logical_not", "numpy.flatnonzero",
         "numpy.nonzero", "numpy.argwhere"}


def is_mask(k):
    if k.op == "tuple":
        return any(is_mask(p) for p in k.args)
    return k.op in BOOLEAN or k.op == "call" and k.args[0] in MASKS or k.op == "mul" and all(p.op in BOOLEAN for p in k.args)


def selections(t):
    """values picked out of an array by a condition, outside of an assignment under that condition"""
    out, paired = set(), set()
    for z in walk(t):
        if z.op == "setitem" and is_mask(z.args[1]):
            paired |= {q for q in walk(z.args[2]) if q.op == "index" and q.args[1] is z.args[1]}
        if z.op == "index" and is_mask(z.args[1]):
            out.add(z)
    return out - paired


def choices(t):
    """conditions by which values are replaced element by element"""
    out = []
    for z in walk(t):
        c = None
        if z.op == "setitem" and is_mask(z.args[1]) and z.args[1].op != "tuple":
            c = z.args[1]
        elif z.op == "call" and z.args[0] == "numpy.where":
            c = next((v for k, v in z.args[2] if k == "condition"), None)
            if not any(k == "x" for k, _ in z.args[2]):
                c = None
        if c is not None:
            out.append(c.args[0] if c.op == "not" else c)
    return out


def other_choice(x, y):
    cx, cy = choices(x), choices(y)
    return len(cx) == 1 and len(cy) == 1 and cx[0] is not cy[0] and labels(cx[0])[0] <= labels(cy[0])[0] and bool(numbers(cy[0]) - numbers(cx[0]))


def numbers(t):
    return {z.args[1] for z in walk(t) if is_num(z)}


def plain_pair(cmp_, x, y, whole):
    """differences which count however the computation around them was written"""
    e = key_sets(x, y)
    if e is not None:
        return e
    if y.op == "getdef" and len(y.args) > 2 and cmp_.eq(x, y.args[2]) and not is_const(x) and y.args[0].op in ("attr", "param"):
        return Edit("an entry already there stays", x, y.args[0], True)
    if y.op == "call" and y.args[0] == "numpy.linspace" and x.op in ("attr", "param"):
        ends = [v for n, v in y.args[2] if n in ("start", "stop")]
        if len(ends) == 2 and all(v.op == "index" and v.args[0] is x or v.op == "call" and v.args[0] in ("numpy.min", "numpy.max", "min", "max") and any(z is x for z in walk(v))
                                  for v in ends):
            return Edit("evenly spaced values stand for the given ones", x, y, True)
    if x.op == "call" and x.args[0] in REDUCES and dict(x.args[2]).get("axis") is not None and is_const(dict(x.args[2])["axis"]) and \
            cval(dict(x.args[2])["axis"]) in (1, -1) and dict(x.args[2]).get("a") is not None:
        E = dict(x.args[2])["a"]
        for z in walk(y):
            if z.op == "call" and z.args[0] in REDUCES and set(dict(z.args[2])) == {"a"} and not z.args[1] and cmp_.eq(dict(z.args[2])["a"], E):
                return sure(Edit("taken over all of it, not row by row", x, z, True))
    if y.op in ("mod", "floordiv") and y.args[0] is x and x.op not in ("mod", "floordiv") and not is_const(y.args[1]):
        return Edit("divided first", x, y, True)
    e = nearly(x, y)
    if e is not None:
        return e
    u = unsliced(y)
    if u is not None and cmp_.eq(x, u[0]) and not any(z.op == "index" and partial_slice(z.args[1]) for z in walk(whole)) and \
            any(z.op == "call" and z.args[0] in REDUCES or z.op == "sumof" for z in walk(whole)):
        return Edit("only part of the values takes part", x, u[1], True)
    p, q = chain_root(x), chain_root(y)
    if p is not None and q is not None and p is not q and labels(whole)[0] >= {("param", p.args[0]), ("param", q.args[0])}:
        return Edit("taken from another argument", x, y, True)
    v = truthiness(x, y)
    if v is not None:
        if v.op in ("param", "attr") and used_as_data(v, whole):
            return Edit("an empty value is taken for a missing one", x, y, True)
        return None
    if y.op == "g" and x.op != "g" and len(y.args) == 2 and cmp_.eq(x, y.args[1]):
        c = y.args[0]
        if not any(z.op in ("isnone", "exc", "isinst", "in", "carried") or z.op == "eq" and any(is_const(q) and q.args[0] == "str" for q in z.args)
                   for z in walk(c)):
            return Edit("some of the items are left out", c, y, True)
    if y.op == "index" and y.args[1].op == "slice" and cmp_.eq(x, y.args[0]) and x.op not in ("shape", "dim") and not loopy(y) and \
            not any(z.op == "dim" for z in walk(x)) and any(z.op in ("dim", "param", "attr", "call") for z in walk(y.args[1])):
        return Edit("only part of the values takes part", x, y.args[1], True)
    for n in ("sorted", "reversed"):
        if y.op == "call" and y.args[0] == n and y.args[1] and cmp_.eq(x, y.args[1][0]) and x.op in ("param", "attr", "index") and \
                not any(z.op == "call" and z.args[0] in ("sorted", "set", "numpy.sort") for z in walk(whole)):
            return Edit("put into another order", x, mk("ref", n), True)
    sel = {z for z in selections(y) if not any(q.op in ("bv", "tmpv") for q in walk(z.args[1]))}
    if sel and not selections(x) and not selections(whole) and not any(z.op in ("many", "fold") for z in walk(x)):
        return Edit("values are selected out", x, sorted(sel, key=weight)[0], True)
    if other_choice(x, y) and numbers(choices(y)[0]) - numbers(whole):
        return Edit("values are replaced under another condition", choices(x)[0], choices(y)[0], True)
    return None


# operations which compute the same thing in other words
RIVALS = {"mean": "sum average trapz nanmean", "abs": "absolute fabs sign maximum where max hypot linalg.norm sqrt", "sum": "dot einsum matmul cumsum mean trapz nansum add.reduce "
          "average inner vdot count_nonzero", "max": "amax maximum sort argmax ptp nanmax", "min": "amin minimum sort argmin ptp nanmin", "median": "percentile quantile nanmedian",
          "isfinite": "isnan isinf nan_to_num", "round": "rint around", "sign": "abs where", "flip": "flipud fliplr", "roll": "concatenate", "tanh": "exp", "sqrt": "",
          "nanmean": "mean", "nansum": "sum"}


def newcomers(gone, new):
    """numerical operations for which nothing equivalent was given up"""
    lost = {l[1].split("numpy.")[-1] for l in gone if l[0] == "call"} | {l[1] for l in gone if l[0] in ("meth", "op")}
    out = []
    for l in new:
        if l[0] == "call" and l[1].startswith("numpy."):
            n = l[1][6:]
            if n in RIVALS and n not in ("sqrt",) and not (set(RIVALS[n].split()) | {n}) & lost and not ({"mean", "sum", "max", "min"} & lost and n in ("mean", "sum", "max", "min")):
                out.append(l)
    return out


def options_of(gone, new, la, lb, y):
    """only an option of an operation was added or taken away"""
    for ls, other, side in ((gone, la, "gone"), (new, la, "new")):
        if (new if ls is gone else gone):
            continue
        kw = [l for l in ls if l[0] == "kw"]
        if kw and all(l[2] in MEANING and ("call", l[1]) in la and ("call", l[1]) in lb for l in kw) and all(l[0] in ("kw", "str") for l in ls):
            l = sorted(kw)[0]
            return Edit("option of an operation changed", mk("ref", f"{l[1]}({l[2]}=)"), y, True)
    return None


CLAMPS = {"min", "max", "numpy.minimum", "numpy.maximum", "numpy.clip", "numpy.fmin", "numpy.fmax"}


def chosen(t):
    """already picks between values"""
    return any(z.op in ("ite", "lt", "mindom", "setitem", "fold") or z.op == "call" and (z.args[0] in CLAMPS or z.args[0] in ("numpy.where", "zip", "numpy.min",
               "numpy.max", "numpy.sort", "sorted")) or z.op == "meth" and z.args[0] in ("clip", "min", "max") for z in walk(t))


def tested_only(t):
    """attributes asked about (is there a value yet?) and never used"""
    asked, used, seen, todo = set(), set(), set(), [(t, False)]
    while todo:
        z, q = todo.pop()
        if (z, q) in seen:
            continue
        seen.add((z, q))
        if z.op == "attr" and isinstance(z.args[1], str):
            (asked if q else used).add(z.args[1].lstrip("_"))
        for c in children(z):
            todo.append((c, z.op == "isnone"))
    return asked - used


def judge_pair(cmp_, x, y):
    la, _ = labels(x)
    lb, _ = labels(y)
    gone, new = la - lb, lb - la
    gone, new = ({l for l in z if not (l[0] == "kw" and ("call", l[1]) in z)} for z in (gone, new))
    if not gone and new and all(l[0] == "call" and l[1].split("#")[0] in REARRANGES and not inverted(l[1], y) for l in new) and \
            not any(z.op == "call" and z.args[0] in ("set", "sorted") for z in walk(x)):
        return marked(added(x, new), new, "new")
    if opt := options_of(gone, new, la, lb, y):
        return opt
    if not gone and {l[1] for l in new if l[0] == "call"} & CLAMPS and not chosen(x) and scalar(x) and not loopy(y):
        hard = [l for l in new if l[0] == "call" and l[1] in CLAMPS]
        return marked(added(x, hard), hard, "new")
    if any(p.op == "dim" for p in walk(x)) != any(p.op == "dim" for p in walk(y)):
        return None
    if not gone and not new:
        if scalar(x) and scalar(y) and weight(x) + weight(y) <= 80 and not item_of_result(x) and not item_of_result(y):
            return Edit("same inputs and operations combined differently", x, y, True)
        return None
    if not new:
        hard = [l for l in gone if solid_label(l, lb) and (l[0] in ("param", "icall", "gref", "enum") or (l[0] == "call" and l[1] not in SHAPING) or
                                                           (l[0] == "attr" and l[1] not in ("shape", "size", "ndim", "T")))]
        if hard and any(l[0] == "attr" for l in hard):
            quiet = tested_only(x)
            hard = [l for l in hard if l[0] != "attr" or l[1] not in quiet]
        if hard and scalar(y) and not (x.op == "mindom" and y in x.args):
            return marked(Edit("no longer takes part", mk("ref", ", ".join(sorted(str(l[1]) for l in hard))), y, True), hard, "gone")
        return None
    if not gone:
        hard = [l for l in new if l[0] == "call" and (l[1] in ADDED or l[1] in CLAMPS and not chosen(x)) and solid_label(l, la)]
        if hard and all(l[0] in ("call", "kw", "str", "attr", "meth", "op", "smeth", "ref", "gref") for l in new):
            return marked(added(x, hard), hard, "new")
        return None
    hard = newcomers(gone, new)
    if hard and all(l[0] in ("call", "kw", "str", "attr", "meth", "op", "ref", "gref") for l in gone | new):
        return marked(added(x, hard), hard, "new")
    return None


def item_of_result(t):
    """one item of an elementwise computation: which operands the position selects from depends on their sizes"""
    return any(z.op == "index" and z.args[0].op in ("add", "mul", "pow", "div") for z in walk(t))


def added(x, ls):
    return Edit("additional operation", x, mk("ref", ", ".join(sorted(str(l[1]) for l in ls))), True)


def inverted(name, t):
    """the operation also reports where the values were"""
    return any(z.op == "call" and z.args[0] == name and any(k.startswith("return_") for k, _ in z.args[2]) for z in walk(t))


REDUCES = {"numpy." + n for n in ("max min sum mean median std var ptp prod nanmax nanmin nansum nanmean percentile quantile average").split()} | {"max", "min", "sum"}
TEXTUAL = {"replace", "split", "rsplit", "strip", "lstrip", "rstrip", "removesuffix", "removeprefix", "partition", "rpartition"}
ALTERS = {"replace", "lower", "upper", "casefold", "capitalize", "title", "swapcase", "zfill", "expandtabs", "translate"}
UNORDERED = REDUCES | {"numpy.sort", "sorted", "set", "numpy.unique", "numpy.histogram", "numpy.interp", "numpy.any", "numpy.all", "numpy.cumsum", "numpy.searchsorted",
                       "numpy.digitize", "len"}


def peel(c):
    """condition -> (condition without negations, its sign)"""
    s = True
    while c.op == "not":
        c, s = c.args[0], not s
    return c, s


def orders(c):
    """-> the two sides of an ordering test"""
    c, _ = peel(c)
    return c.args if c.op in ("lt", "le") else None


def calls(t, name):
    return [z for z in walk(t) if z.op == "call" and z.args[0] == name]


def kwarg(z, *names):
    return next((v for k, v in z.args[2] if k in names), None)


def reads(t, p):
    """ways in which a list is read: whole, by position, item by item"""
    out = set()
    def go(z):
        if z is p:
            out.add("whole")
            return
        if z.op in ("index", "key") and z.args[0] is p:
            k = z.args[1]
            out.add("position" if is_const(k) and k.args[0] == "int" or z.op == "key" and False else "items")
            go(k)
            return
        if z.op in ("len", "size", "shape", "ndim", "dim", "not", "isnone") and z.args[0] is p:
            out.add("measure")
            return
        if z.op in ("and", "or"):
            for y in z.args:
                if y is not p:
                    go(y)
            return
        if z.op == "ite" and z.args[0] is p:
            go(z.args[1])
            go(z.args[2])
            return
        for y in children(z):
            go(y)
    go(t)
    return out


def threshold(c):
    """-> (A, bound, is A < / <= bound where the test holds (else >), inclusive)"""
    c, s = peel(c)
    if c.op not in ("lt", "le"):
        return None
    a, b = c.args
    incl = c.op == "le"
    if is_num(b) and not is_num(a):
        return (a, cval(b), True, incl) if s else (a, cval(b), False, not incl)
    if is_num(a) and not is_num(b):
        return (b, cval(a), False, incl) if s else (b, cval(a), True, not incl)
    return None


def sure(e):
    """counts whatever else differs"""
    return marked(e, {("sure",)}, "new")


PRIME = (1 << 61) - 1


def value_of(t, atoms, leaf):
    """the value of an expression of sums, products and powers, with independent values for everything else in it"""
    if is_num(t) and not isinstance(cval(t), bool):
        f = Fraction(cval(t))
        return f.numerator * pow(f.denominator, -1, PRIME) % PRIME
    if t.op == "add":
        return sum(value_of(z, atoms, leaf) for z in t.args) % PRIME
    if t.op == "mul":
        r = 1
        for z in t.args:
            r = r * value_of(z, atoms, leaf) % PRIME
        return r
    if t.op == "pow" and is_num(t.args[1]) and isinstance(cval(t.args[1]), int) and abs(cval(t.args[1])) < 20:
        return pow(value_of(t.args[0], atoms, leaf), cval(t.args[1]), PRIME)
    if t.op == "call" and t.args[0] == "numpy.diff" and len(t.args[2]) == 1 and not t.args[1]:
        a = t.args[2][0][1]
        return (leaf(atoms, mk("index", a, mk("slice", const(1), NONE, NONE))) - leaf(atoms, mk("index", a, mk("slice", NONE, const(-1), NONE)))) % PRIME
    return leaf(atoms, t)


def independent(cmp_):
    def leaf(atoms, t):
        for i, z in enumerate(atoms):
            if z is t or cmp_.eq(z, t):
                return pow(7919 + i, 31337 + 2 * i, PRIME)
        atoms.append(t)
        return pow(7918 + len(atoms), 31335 + 2 * len(atoms), PRIME)
    return leaf


def plain_part(t):
    """an argument or an attribute, or a fixed item of one"""
    while t.op == "index" and all(is_const(q) or q.op in ("slice", "ellipsis") for q in (t.args[1].args if t.args[1].op == "tuple" else (t.args[1],))):
        t = t.args[0]
    return t.op == "param" or t.op == "attr" and t.args[0].op == "self"


def base_of(t):
    while t.op == "index":
        t = t.args[0]
    return t


def sums_differ(cmp_, x, y):
    """two formulas over the same quantities which are not the same function of them"""
    ar = ("add", "mul", "pow")
    test = x.op == y.op == "lt" or x.op == y.op == "eq"
    if not test and x.op not in ar and y.op not in ar:
        return False
    leaf, ax = independent(cmp_), []
    if test:
        x, y = (add(z.args[0], mul(const(-1), z.args[1])) for z in (x, y))
    u = value_of(x, ax, leaf)
    n = len(ax)
    v = value_of(y, ax, leaf)
    if not ax or u == v or test and u == -v % PRIME:
        return False
    ay = []
    value_of(y, ay, leaf)
    extra, left = ax[n:], [z for z in ax[:n] if not any(cmp_.eq(z, q) for q in ay)]
    if any(q.op in ("bv", "tmpv", "mu") or q.op in LOOPY for z in ax for q in walk(z)):
        return False
    if (extra or left) and any(q.op in ("dim", "len", "size", "shape", "enum") for z in ax for q in walk(z)):
        return False
    if extra:
        if left:
            # other parts of the same tables
            roots = {base_of(z) for z in ax[:n]}
            return all(plain_part(z) and z.op == "index" and z.args[1].op == "slice" for z in ax if z in extra or z in left) and all(base_of(z) in roots for z in extra)
        return all(plain_part(z) for z in ax)
    if test and not extra and not left:
        return u * pow(v, -1, PRIME) % PRIME not in SMALL if v else True
    return not test or all(plain_part(z) for z in ax)


SMALL = {a * pow(b, -1, PRIME) % PRIME for a in range(1, 50) for b in range(1, 50)}


def typed_by(t):
    """conversions to the type of an argument's values"""
    out = set()
    for z in walk(t):
        k = None
        if z.op == "meth" and z.args[0] == "astype":
            k = z.args[2][0] if z.args[2] else dict(z.args[3]).get("dtype")
        elif z.op == "call" and z.args[0] in ("numpy.asarray", "numpy.array", "numpy.vectorize", "numpy.ascontiguousarray"):
            k = dict(z.args[2]).get("dtype", dict(z.args[2]).get("otypes"))
        if k is not None:
            out |= {q for q in walk(k) if q.op == "attr" and q.args[1] == "dtype" and any(w.op in ("param", "self") for w in walk(q))}
    return out


def options_read(t):
    return {(z.args[0].args[0], cval(z.args[1])) for z in walk(t) if z.op == "getdef" and z.args[0].op == "param" and z.args[0].args[0] in ("kwargs", "kwds", "kw") and
            is_const(z.args[1]) and z.args[1].args[0] == "str"}


def entries_asked(t):
    return {cval(z.args[1]) for z in walk(t) if z.op == "index" and is_const(z.args[1]) and z.args[1].args[0] == "str"}


def fresh_text(a, b):
    have = {cval(z) for z in walk(a) if is_const(z) and z.args[0] == "str"}
    return {cval(z) for z in walk(b) if is_const(z) and z.args[0] == "str"} - have


def converted(a, b):
    """values are turned into another type, text is read in another encoding"""
    n = typed_by(b)
    if n and not any(z.op == "attr" and z.args[1] == "dtype" for z in walk(a)):
        return sure(Edit("converted to the type of another array", mk("ref", "dtype"), sorted(n, key=weight)[0], True))
    for z in walk(b):
        if z.op == "call" and z.args[0] in ("numpy.take", "numpy.put", "numpy.choose", "numpy.ravel_multi_index") and any(
                n == "mode" and is_const(v) and cval(v) in ("clip", "wrap") for n, v in z.args[2]) and not calls(a, z.args[0]):
            return sure(Edit("positions outside stand for others", mk("ref", "mode"), z, True))
    ka, kb = options_read(a), options_read(b)
    if ka - kb and kb - ka and not {mk("const", "str", n) for _, n in ka - kb} & {z for z in walk(b) if is_const(z)}:
        return sure(Edit("an option is read under another name", mk("ref", ", ".join(sorted(n for _, n in ka - kb))), mk("ref", ", ".join(sorted(n for _, n in kb - ka))), True))
    ea, tb = entries_asked(a), {cval(z) for z in walk(b) if is_const(z) and z.args[0] == "str"} | {z.args[1] for z in walk(b) if z.op == "attr"}
    if ea - tb and a.op != "raised" and not fresh_text(a, b) and {l for l in labels(b)[0] if l[0] in ("icall", "call", "smeth", "meth")} <= labels(a)[0] | {("call", "numpy.size")} and \
            any(z.op in ("in", "index") for z in walk(b)):
        return Edit("an entry is no longer looked at", mk("ref", ", ".join(sorted(ea - tb))), b, True)
    coded = [z for z in walk(a) if z.op == "meth" and z.args[0] in ("decode", "encode")]
    for z in walk(b):
        if z.op == "meth" and z.args[0] in ("decode", "encode") and (z.args[2] or z.args[3]) and any(q.args[0] == z.args[0] for q in coded) and \
                not any(q.args[2] or q.args[3] for q in coded):
            if z.args[3] or [cval(q).lower() for q in z.args[2] if is_const(q)] not in (["utf-8"], ["utf8"]):
                return sure(Edit("text is read in another encoding", mk("ref", z.args[0]), z, True))
    return None


def stops_early(x, y):
    """a search through all items that ends before the last one"""
    mine = {z.args[1] for z in walk(x) if z.op in ("any", "many", "sumof")}
    for z in walk(y):
        if z.op in ("any", "many", "sumof") and z.args[1] in mine and any(q.op == "brk" for q in children(z)) or z.op in ("any", "many", "sumof") and \
                z.args[1] in mine and any(q.op == "brk" for q in z.args[-1] if isinstance(z.args[-1], tuple)):
            return z
    return None


def accepted(c):
    """-> (the value asked about, the constants it is compared with, True when those are the ones let through, False when the others are) or None"""
    if c.op == "not":
        v = accepted(c.args[0])
        return v and (v[0], v[1], not v[2])
    if c.op == "eq":
        for u, k in (c.args, c.args[::-1]):
            if is_const(k) and k.args[0] == "str" and not is_const(u):
                return u, frozenset([k]), True
    if c.op in ("and", "or"):
        vs = [accepted(z) for z in c.args]
        if any(v is None or v[0] is not vs[0][0] for v in vs):
            return None
        ks, pos = vs[0][1:]
        for _, q, p in vs[1:]:
            if c.op == "and":
                ks, pos = (ks & q, True) if pos and p else (ks - q, True) if pos else (q - ks, True) if p else (ks | q, False)
            else:
                ks, pos = (ks | q, True) if pos and p else (q - ks, False) if pos else (ks - q, False) if p else (ks & q, False)
        return vs[0][0], ks, pos
    return None


ROUNDINGS = {"numpy.floor": "floor", "math.floor": "floor", "numpy.ceil": "ceil", "math.ceil": "ceil", "numpy.round": "round", "numpy.rint": "round", "round": "round",
             "numpy.around": "round", "numpy.trunc": "trunc", "numpy.fix": "trunc", "math.trunc": "trunc"}


def rounded(t):
    """-> (the kind of rounding, what is rounded to a whole number) or None"""
    if t.op == "call" and t.args[0] in ROUNDINGS and len(t.args[1]) + len(t.args[2]) == 1:
        return ROUNDINGS[t.args[0]], (t.args[1] or (t.args[2][0][1],))[0]
    return None


def picked(y):
    """fixed items only: a list of things looked up at constant places"""
    return y.op == "list" and y.args and not any(z.op in ("many", "ext", "g", "star") for z in y.args) and \
        all(any(q.op == "index" and is_num(q.args[1]) for q in walk(z)) for z in y.args)


def taken(y):
    """numpy.take -> (table, where)"""
    if y.op == "call" and y.args[0] == "numpy.take":
        d = dict(y.args[2])
        v = [d.get("a"), d.get("indices")]
        for i, z in enumerate(y.args[1][:2]):
            v[i] = z
        return v
    return None


def shape_only(t, k):
    """k picks from something of which only the shape counts"""
    for z in walk(t):
        if z.op == "dim" or z.op == "call" and str(z.args[0]).endswith("_like"):
            if any(q is k for c in children(z) for q in walk(c)):
                return True
    return False


def same_loop(x, y):
    return loopy(x) == loopy(y)


def lone_more(cmp_, x, y, b):
    if y.op == "ite" and x.op == "index" and is_const(x.args[1]):
        ls = outcomes(y, [])
        if 1 < len(ls) <= 4 and all(is_num(l) or l.op == "index" and is_const(l.args[1]) and l.args[0] is x.args[0] and l.args[1] is not x.args[1] for l in ls) and \
                any(not is_num(l) for l in ls):
            return Edit("another entry", x, y, True)
    if x.op == "eq" and y.op == "in" and y.args[1].op == "const" and isinstance(cval(y.args[1]), str) and y.args[1] in x.args and y.args[0] in x.args:
        return Edit("an equality became a match of a part", x, y, True)
    if x.op == "in" and y.op == "any" and any(z.op == "meth" and z.args[0] in ("startswith", "endswith", "find", "count") and cmp_.eq(z.args[1], x.args[0]) for z in walk(y)):
        return Edit("a name matches by a part of it", x, y, True)
    if x.op == "eq" and y.op == "eq" and not loopy(y):
        m = [z for z in y.args if z.op == "mod"]
        if len(m) == 1 and const(0) in y.args and set(map(id, m[0].args)) == set(map(id, x.args)) and m[0].args[0] is not m[0].args[1]:
            return Edit("equal sizes became a multiple", x, y, True)
    if x.op in ("gref", "ref") and x.args[0] in ("numpy.inf", "math.inf") and is_num(y) and not isinstance(cval(y), bool) and abs(cval(y)) < 1e6:
        return Edit("a bound where there was none", x, y, True)
    if x.op == "add" and y.op == "call" and y.args[0] in ("numpy.maximum", "numpy.minimum", "numpy.fmax", "numpy.fmin", "max", "min"):
        ps = list(y.args[1]) + [v for _, v in y.args[2]]
        if len(ps) == 2 and not any(is_const(z) for z in ps) and len(x.args) == 2 and all(any(q is z or cmp_.eq(q, z) for t in x.args for q in walk(t)) for z in ps) and \
                not any(z.op == "call" and z.args[0] == "numpy.abs" for z in walk(x)):
            return Edit("one of the two stands for both", x, y, True)
    if y.op == "mul" and len(y.args) == 2 and not loopy(y):
        for p, q in (y.args, y.args[::-1]):
            if p.op == "floordiv" and cmp_.eq(p.args[0], x) and cmp_.eq(p.args[1], q) and q is not const(1):
                return Edit("rounded to a multiple", x, y, True)
    if x.op == y.op == "slice" and x.args[0] is NONE and x.args[1] is not NONE and y.args[1] is NONE and y.args[0].op == "mul" and const(-1) in y.args[0].args and \
            cmp_.eq(y.args[0], mul(const(-1), x.args[1])):
        return Edit("the other end of the table", x, y, True)
    if y.op == "call" and y.args[0] in ("numpy.sort", "sorted", "numpy.unique", "numpy.flip") and calls(x, "numpy.argmax") and len(y.args[1]) + len(y.args[2]) == 1 and \
            cmp_.eq((y.args[1] or (y.args[2][0][1],))[0], x):
        return Edit("put into another order", mk("ref", y.args[0]), x, True)
    if x is NONE and y.op in ("meth", "call", "icall", "smeth") and (y.args[0] in DISTRIBUTION if y.op == "meth" else y.op == "call" and str(y.args[0]).startswith("numpy.")):
        return Edit("a value where there was none", x, y, True)
    if x.op == "getdef" and y.op == "ite" and y.args[0].op == "and" and cmp_.eq(y.args[2], x.args[2]) and (
            y.args[1].op in ("index", "expand", "getdef") and y.args[1].args[0] is x.args[0] or x.args[1] is NONE and y.args[1] is x.args[0]):
        D, k = x.args[0], x.args[1]
        own = [z for z in y.args[0].args if z.op == "in" and cmp_.eq(z.args[1], D) and z.args[0] is k]
        rest = [z for z in y.args[0].args if not (z.op == "in" and cmp_.eq(z.args[1], D))]
        if own and rest and not any(q is D for z in rest for q in walk(z)) and all(any(q.op == "param" for q in walk(z)) for z in rest):
            return Edit("what the table holds is found in some cases only", x, y, True)
    if x.op == "call" and x.args[0] == "numpy.linspace" and y.op in ("getdef", "param", "attr", "index") and not loopy(y) and any(q is y for q in walk(x)):
        return Edit("other sampling points", x, y, True)
    return None


def settings_tested(t, out):
    """the settings and arguments a condition asks about"""
    if t.op in ("not", "and", "or"):
        for z in t.args:
            settings_tested(z, out)
        return
    v = tested(t)
    if v is not None:
        out.add(v[0])


def tested(t):
    """-> (what is asked about, the answer when it is there, the answer when it is not)"""
    if t.op == "in" and is_const(t.args[0]) and t.args[1].op in ("param", "kwargs"):
        return ("key", t.args[1], t.args[0]), True, False
    if t.op == "isnone" and t.args[0].op == "getdef" and t.args[0].args[0].op in ("param", "kwargs") and is_const(t.args[0].args[1]) and t.args[0].args[2] is NONE:
        return ("key", t.args[0].args[0], t.args[0].args[1]), False, True
    if t.op == "isnone" and t.args[0].op == "param":
        return ("none", t.args[0]), False, True
    if t.op == "param":
        return ("true", t), True, False
    return None


def answer(t, val):
    """what a condition comes to when only some of what it asks about is known"""
    if is_const(t) and isinstance(cval(t), bool):
        return cval(t)
    if t.op == "not":
        r = answer(t.args[0], val)
        return None if r is None else not r
    if t.op in ("and", "or"):
        rs = [answer(z, val) for z in t.args]
        hit = t.op == "or"
        return hit if hit in rs else None if None in rs else not hit
    v = tested(t)
    if v is None or v[0] not in val:
        return None
    return v[1] if val[v[0]] else v[2]


def conditions_differ(x, y, sa):
    """two conditions which come to different answers for some combination of settings that are there and settings that are not"""
    if not (x.op in ("and", "or", "not") or tested(x)) or not (y.op in ("and", "or", "not") or tested(y)):
        return False
    vs, left = set(), set()
    settings_tested(x, vs)
    settings_tested(y, vs)
    if not vs or len(vs) > 6:
        return False
    # asked about elsewhere as well: the answers may depend on each other
    seen, todo = set(), [sa]
    while todo:
        t = todo.pop()
        if t is x or t in seen:
            continue
        seen.add(t)
        v = tested(t)
        if v is not None and v[0][0] != "true" and v[0] in vs:
            return False
        if t.op == "ite" and t.args[0] is not x and tested(t.args[0]) and tested(t.args[0])[0] in vs:
            return False
        todo.extend(children(t))
    names = sorted(vs, key=repr)
    for bits in range(1 << len(names)):
        val = {n: bool(bits >> i & 1) for i, n in enumerate(names)}
        u, v = answer(x, val), answer(y, val)
        if u is not None and v is not None and u != v:
            return True
    return False


def lone_pair(cmp_, x, y, b=None):
    """the only difference there is"""
    if x.op == y.op == "slice" and all(z is NONE or is_num(z) for z in x.args + y.args) and b is not None and not shape_only(b, y):
        return Edit("another part", x, y, True)
    if y.op in ("gref", "ref") and y.args[0] in ("numpy.inf", "numpy.nan") and not is_num(x) and x.op not in ("gref", "ref") and b is not None and any(
            z.op in ("call", "icall") and any(n == "fill_value" and any(q is y for q in walk(v)) for n, v in z.args[-1]) or
            z.op == "kv" and is_const(z.args[0]) and cval(z.args[0]) == "fill_value" and any(q is y for q in walk(z.args[1])) for z in walk(b)):
        return Edit("no value of the table", x, y, True)
    t = taken(y)
    if t is not None and x.op == "index" and t[0] is not None and t[1] is not None and cmp_.eq(x.args[0], t[0]) and cmp_.eq(x.args[1], t[1]) and \
            x.args[1].op == "param" and dict(y.args[2]).get("mode") is None:
        return Edit("a mask would be taken for positions", x, y, True)
    e = lone_more(cmp_, x, y, b)
    if e is not None:
        return e
    if x.op == "dim" and y.op == "call" and y.args[0] in ("numpy.count_nonzero", "numpy.sum") and y.args[1] + tuple(v for _, v in y.args[2]) == (x.args[0],):
        return Edit("counted by content, not by place", x, y, True)
    if y.op == "mod" and y.args[0] is x and is_num(y.args[1]) and x.op != "mod":
        return Edit("wrapped round", x, y, True)
    if x.op == "eq" and y.op == "meth" and y.args[0] in ("startswith", "endswith") and any(cmp_.eq(z, y.args[1]) for z in x.args):
        return Edit("an equality became a match of a part", x, y, True)
    if x.op == "in" and y.op == "any" and any(z.op == "in" and cmp_.eq(z.args[0], x.args[0]) and z.args[1] is not x.args[1] and x.args[1] in set(walk(z.args[1])) for z in walk(y)):
        return Edit("a name matches by a part of it", x, y, True)
    if is_num(x) and not isinstance(cval(x), bool) and not is_num(y) and not loopy(y) and any(z.op == "param" for z in walk(y)) and \
            all(z.op in ("param", "const", "add", "mul", "pow") for z in walk(y)) and y.op != "param":
        return Edit("a fixed number became one which depends on an argument", x, y, True)
    if b is not None and not is_const(y) and y.op in ("attr", "meth", "call", "smeth", "icall") and x.op in ("meth", "index", "icall", "smeth", "getdef"):
        for z in walk(b):
            if z.op == "ite" and z.args[1:] in ((x, y), (y, x)) and (z.args[0] is x or z.args[0].op in ("not", "isnone") and z.args[0].args[0] is x):
                return Edit("something else stands in where there is none", x, y, True)
    if y.op == "dict" and len(y.args) > 1 and y.args[-1].op == "rest" and cmp_.eq(y.args[-1].args[0], x) and y.args[0].op == "rest" and \
            y.args[0].args[0] in set(walk(x)) and not is_const(y.args[0].args[0]):
        return Edit("entries stay which were replaced as a whole", x, y, True)
    if x.op == "list" and any(z.op == "many" for z in x.args) and picked(y):
        return Edit("only some of the items take part", x, y, True)
    if y.op == "g" and len(y.args) == 2 and y.args[1] is x and x.op == "ext":
        return Edit("some of the items are left out", x, y.args[0], True)
    if y.op == "and" and x in y.args and len(y.args) == 2 and b is not None:
        z = y.args[0] if y.args[1] is x else y.args[1]
        if z.op in ("lt", "le") and any(q.op == "dim" for q in z.args) and any(is_num(q) and cval(q) > 3 for q in z.args):
            return Edit("depends on how many there are", x, z, True)
    if x.op == y.op == "call" and x.args[0] == y.args[0] and str(x.args[0]).startswith("numpy.histogram") and "range" in dict(y.args[2]) and "range" not in dict(x.args[2]):
        return Edit("other bins", x, y, True)
    if str(x.args[0] if x.args else "") == "operator.add" and y.op == "lam" and isinstance(y.args[-1], T) and y.args[-1].op == "ite" and \
            any(l.op == "bv" for l in y.args[-1].args[1:]):
        return Edit("one of the two is dropped", x, y, True)
    if plain_part(x) and y.op in ("add", "mul", "call", "pow") and not loopy(y) and any(z is x for z in walk(y)) and not any(z.op in ("bv", "tmpv", "dim", "ite") for z in walk(y)):
        if y.op == "call" and y.args[0] in REDUCES and len(y.args[1]) + len(y.args[2]) == 1:
            y = (y.args[1] or (y.args[2][0][1],))[0]
        rest = [z for z in y.args if isinstance(z, T) and z is not x]
        if y.op in ("add", "mul") and len(rest) < len(y.args) and all(z.op in ("param", "attr", "call", "mul", "pow", "index", "icall", "const") for z in rest) and any(
                q.op in ("param", "attr") for z in rest for q in walk(z)):
            return Edit("a value is shifted or scaled", x, y, True)
    return None


def further(cmp_, x, y, sa, sb):
    """more differences which count however the computation around them was written"""
    u, v = rounded(x), rounded(y)
    if u is not None and v is not None and u[0] != v[0] and (cmp_.eq(u[1], v[1]) or v[1].op == "add" and any(is_num(z) for z in v[1].args) and
                                                              cmp_.eq(u[1], add(*[z for z in v[1].args if not is_num(z)]))):
        return sure(Edit("rounded in another direction", x, y, True))
    cx, px = peel(x)
    cy, py = peel(y)
    if cx.op == cy.op == "eq" and px == py and all(z.op == "dim" for z in cy.args) and not any(z.op == "dim" or is_const(z) for z in cx.args):
        if any(all(cmp_.eq(z, q.args[0]) for z, q in zip(cx.args, o)) for o in (cy.args, cy.args[::-1])):
            return Edit("a comparison of contents became one of sizes", x, y, True)
    if x.op == "call" and x.args[0] in REDUCES | {"numpy.argmax", "numpy.argmin", "numpy.trapz"}:
        E = dict(x.args[2]).get("a")
        for z in walk(y) if E is not None else ():
            if z.op == "call" and z.args[0] == x.args[0] and z is not x:
                F = dict(z.args[2]).get("a")
                if F is not None and F.op == "index" and partial_slice(F.args[1]) and cmp_.eq(F.args[0], E) and \
                        [v for n, v in z.args[2] if n != "a"] == [v for n, v in x.args[2] if n != "a"] and not any(q is x for q in walk(y)):
                    return Edit("only part of the values takes part", x, F.args[1], True)
    if x.op == "param" and (y.op == "slice" and len(y.args) == 3 and y.args[0] is x and y.args[1] is add(x, const(1)) or
                            y.op == "call" and y.args[0] == "slice" and len(y.args[1]) == 2 and y.args[1][0] is x and y.args[1][1] is add(x, const(1))):
        return sure(Edit("a position counted from the end selects nothing", x, y, True))
    if y.op == "call" and y.args[0] == "numpy.where" and not calls(x, "numpy.where"):
        d = dict(y.args[2])
        c, u, v = d.get("condition"), d.get("x"), d.get("y")
        t = threshold(c) if c is not None else None
        if t is not None and u is not None and is_num(v) and cmp_.eq(u, x) and cmp_.eq(t[0], x) and t[1] != 0:
            return sure(Edit("small values are replaced by a fixed one", x, y, True))
    for z in walk(y):
        if z.op == "index" and z.args[1].op == "slice" and z.args[1].args[0] in (NONE, const(0)) and is_num(z.args[1].args[1]) and cval(z.args[1].args[1]) > 0 and \
                x.op in ("meth", "smeth", "icall", "call", "index") and z.args[0].op == "call" and z.args[0].args[0] in ("sorted", "list", "tuple") and \
                z.args[0].args[1] and (z.args[0].args[1][0] is x or loopy(x) is False and any(q is x for q in walk(z.args[0].args[1][0]))):
            return sure(Edit("only the first items take part", x, z.args[1], True))
    u, v = accepted(x), accepted(y)
    if u is not None and v is not None and u[0] is v[0] and u[1:] != v[1:]:
        return sure(Edit("other values are let through", x, y, True))
    if cx.op == "isinst" and cy.op == "call" and cy.args[0] == "hasattr" and cy.args[1] and cmp_.eq(cx.args[0], cy.args[1][0]):
        return sure(Edit("asked whether it has an attribute, not what it is", x, y, True))
    if x.op in ("dict", "list") and not x.args and y.op == "attr" and y.args[0].op in ("self", "clsself") and y.args[1].startswith("_") and not y.args[1].isupper():
        return sure(Edit("starts from what was there before", x, y, True))
    if x.op == "call" and "." in str(x.args[0]) and not str(x.args[0]).startswith(("numpy.", "scipy.", "builtins.")) and y.op == "dim" and \
            any(z is y.args[0] for z in tuple(x.args[1]) + tuple(v for _, v in x.args[2])):
        return sure(Edit("the number of items stands for what it was asked for", x, y, True))
    if y.op == "dict" and len(y.args) > 1 and y.args[0].op == "rest" and cmp_.eq(y.args[0].args[0], x) and x.op in ("param", "attr", "smeth", "meth") and x.args[0] != "build_tables" and \
            all(l.op == "del" or l.op == "kv" and is_const(l.args[0]) and not (l.args[1].op in ("index", "getdef") and l.args[1].args[0] is x) for l in y.args[1:]):
        return Edit("entries are added or taken out", x, y, True)
    if not any(q.op == "brk" for q in walk(x)):
        z = stops_early(x, y)
        if z is not None:
            return sure(Edit("the search ends before the last item", x, z, True))
    if x.op == y.op == "attr" and x.args[0].op == y.args[0].op == "self" and x.args[1] != y.args[1] and getattr(cmp_, "apart", None) and cmp_.apart(x.args[1], y.args[1]):
        return Edit("taken from another attribute", x, y, True)
    if x.op == "param" and not loopy(y) and not any(z is x or z.op in ("bv", "tmpv", "self", "dim", "len", "ite", "isnone") for z in walk(y)) and \
            any(z.op == "param" for z in walk(y)) and any(z.op == "call" and z.args[0] in REDUCES | NUMERIC for z in walk(y)):
        return Edit("worked out from another argument", x, y, True)
    # a fixed number became one that depends on the data
    if is_num(x) and not is_num(y) and not isinstance(cval(x), bool) and not loopy(y):
        data = any(z.op in ("param", "attr") for z in walk(y))
        if data and (any(z.op == "call" and z.args[0] in REDUCES for z in walk(y)) or isinstance(cval(x), float) and cval(x) not in (0.0, 1.0) and
                     any(z is x for z in walk(y))):
            return Edit("a fixed number became one which depends on the data", x, y, True)
    if x.op == "getdef" and y is x.args[2] and is_const(y):
        e = Edit("a setting is no longer read", x, y, True)
        return marked(e, {("str", cval(x.args[1]))}, "gone") if is_const(x.args[1]) else e
    # equality with a value became an ordering, or the other way about
    cx, px = peel(x)
    if cx.op == "eq":
        o = orders(y)
        if o is not None and not any(is_const(q) for q in cx.args) and (cmp_.eq(cx.args[0], o[0]) and cmp_.eq(cx.args[1], o[1]) or
                                                                       cmp_.eq(cx.args[0], o[1]) and cmp_.eq(cx.args[1], o[0])):
            return Edit("an equality became an ordering", x, y, True)
        t = threshold(y)
        num = next((cval(q) for q in cx.args if is_num(q)), None)
        if t is not None and num == 0 and any(cmp_.eq(q, t[0]) for q in cx.args):
            _, bound, below, incl = t
            # the side on which 0 lies also has 1 on it
            if below == px and (bound > 1 or bound == 1 and incl) or below != px and (bound > 1 or bound == 1 and not incl):
                return Edit("equality with zero became a threshold above one", x, y, True)
        cy, _ = peel(y)
        if cy.op == "eq":
            for p, q in ((0, 1), (1, 0)):
                for r, t in ((0, 1), (1, 0)):
                    if is_const(cx.args[p]) and cx.args[p] is cy.args[r]:
                        u, v = cx.args[q], cy.args[t]
                        if u.op == "dim" and u.args[0].op == "dim" and v is u.args[0] or v.op == "dim" and v.args[0].op == "dim" and u is v.args[0]:
                            return Edit("the number of dimensions is taken for the number of values", x, y, True)
    # an argument is used shifted or scaled by another
    if x.op == "param" and y.op in ("add", "mul") and any(z is x for z in walk(y)) and not loopy(y) and \
            all(z.op in ("add", "mul", "const", "param", "attr", "self", "pow") for z in walk(y)) and any(z.op in ("param", "attr") and z is not x for z in walk(y)):
        return Edit("an argument is shifted or scaled", x, y, True)
    if x.op in ("param", "attr", "index") and not loopy(y):
        t = y
        while t.op == "call" and t.args[0].startswith(("os.path.", "str")) and len(t.args[1]) == 1:
            t = t.args[1][0]
        if t.op == "meth" and t.args[0] in ALTERS and any(z is x for z in walk(t.args[1])) and \
                not any(z.op == "meth" and z.args[0] in ALTERS | TEXTUAL for z in walk(sa)):
            return sure(Edit("text is altered", x, y, True))
    # sampling points
    for lx in calls(x, "numpy.linspace"):
        a, b, n = kwarg(lx, "start"), kwarg(lx, "stop"), kwarg(lx, "num")
        if a is None or b is None or calls(x, "numpy.arange"):
            continue
        for ly in calls(y, "numpy.linspace"):
            if kwarg(ly, "start") is a and kwarg(ly, "stop") is b and n is not None and kwarg(ly, "num") is not None and \
                    not cmp_.eq(kwarg(ly, "num"), n) and any(z.op == "index" and z.args[0] is ly and z.args[1].op == "slice" for z in walk(y)) and \
                    not any(z.op == "index" and z.args[0] is lx for z in walk(x)):
                return sure(Edit("other sampling points", lx, ly, True))
        for ly in calls(y, "numpy.arange"):
            if kwarg(ly, "start") is a and kwarg(ly, "stop") is b and kwarg(ly, "step") is not None and not calls(y, "numpy.linspace"):
                return sure(Edit("other sampling points", lx, ly, True))
    for f, g in (("numpy.diff", "numpy.gradient"), ("numpy.median", "numpy.mean"), ("numpy.nanmedian", "numpy.nanmean"), ("numpy.trapz", "scipy.integrate.simpson")):
        for f, g in ((f, g), (g, f)):
            if calls(x, f) and not calls(sb, f) and not calls(sa, g):
                for z in calls(y, g):
                    if any({v for _, v in z.args[2]} & {v for n, v in q.args[2] if not is_const(v)} for q in calls(x, f)):
                        return sure(Edit("another operation", mk("ref", f), z, True))
    # a step of the computation is skipped: its input is used in place of its result
    if x.op in ("smeth", "icall") and y.op in ("attr", "param") and getattr(cmp_, "result", None):
        res = cmp_.result(x)
        if res is not None and res is not y and any(z is y for z in walk(res)) and not any(z is y for z in outcomes(res, [])):
            return Edit("a step is skipped", x, y, True)
    # differences of neighbours became the first difference
    for d in calls(x, "numpy.diff"):
        v = kwarg(d, "a")
        if v is None or len(d.args[2]) > 1 or calls(y, "numpy.diff") or calls(v, "numpy.linspace") or calls(v, "numpy.arange"):
            continue
        idx = {z.args[1] for z in walk(y) if z.op == "index" and z.args[0] is v}
        if idx and all(is_const(k) and k.args[0] == "int" for k in idx) and len(idx) == 2:
            return sure(Edit("the spacing of the first cell is taken for all", d, y, True))
    e = one_width(x, y)
    if e is not None:
        return e
    # the nearest point became the next one
    if calls(x, "numpy.argmin") and calls(x, "numpy.abs") and not calls(y, "numpy.argmin") and (calls(y, "numpy.searchsorted") or calls(y, "numpy.digitize")) and \
            not any(z.op in ("ite", "lt", "setitem") or z.op == "call" and z.args[0] in ("numpy.abs", "numpy.where", "numpy.diff") for z in walk(y)) and \
            not any(z.op == "mul" and any(q.op == "const" and cval(q) == 0.5 for q in z.args) for z in walk(y)):
        return sure(Edit("the nearest point became the next one", x, y, True))
    if calls(x, "os.path.splitext") and not calls(y, "os.path.splitext") and any(z.op == "meth" and z.args[0] in ("partition", "split") for z in walk(y)):
        return sure(Edit("text taken apart at another place", x, y, True))
    if is_num(x) and y.op == "add" and any(q is x for q in y.args) and any(q.op in ("param", "attr", "index", "mul") and q is not x for q in y.args) and \
            not any(z.op in ("dim", "len", "size", "shape", "bv") for z in walk(y)) and not loopy(y):
        return Edit("a fixed number became one which depends on the data", x, y, True)
    if y.op == "meth" and y.args[0] in ("split", "rsplit", "partition", "lower", "upper", "strip", "replace") and any(z is x for z in walk(y.args[1])) and not any(
            z.op == "meth" and z.args[0] in ("split", "rsplit", "partition", "lower", "upper", "strip", "replace") for z in walk(x)):
        return sure(Edit("another spelling is used", x, mk("ref", y.args[0]), True))
    # evenly spaced values stand for a table of values
    if calls(y, "numpy.linspace") and not calls(x, "numpy.linspace") and not calls(sa, "numpy.linspace"):
        held = {z.args[0] for z in walk(x) if z.op == "index" and z.args[1].op in ("slice", "tuple") and z.args[0].op == "attr" and any(q.op == "slice" for q in walk(z.args[1]))}
        if len(held) == 1 and not any(z in held for z in walk(y)) and not any(z.op == "call" and z.args[0] in ("numpy.interp",) for z in walk(y)):
            return sure(Edit("evenly spaced values stand for the given ones", x, y, True))
    n = spellings(y) - spellings(sa)
    if n and not spellings(x):
        return sure(Edit("another spelling is used", x, mk("ref", ", ".join(sorted(n))), True))
    la, lb = labels(x)[0], labels(y)[0]
    gone, new = la - lb, lb - la
    lost = [l for l in gone if l[0] == "call" and l[1] in FUNCTIONS]
    if lost and not new and not any(l in labels(sb)[0] for l in lost):
        return marked(Edit("no longer takes part", mk("ref", ", ".join(sorted(l[1] for l in lost))), y, True), lost, "gone")
    lost = [l for l in gone if l[0] == "meth" and l[1] in DISTRIBUTION]
    got = [l for l in new if l[0] in ("meth", "attr") and l[1] in STATISTIC]
    if lost and got and len(gone | new) <= 4 and not any(l[0] in ("icall", "smeth") for l in new):
        return marked(Edit("another quantity of the distribution", x, y, True), got, "new")
    # tables
    if x.op == "dict" and len(x.args) > 1 and all(l.op == "rest" for l in x.args) and y.op == "dict" and len(y.args) == len(x.args) and \
            set(y.args) == set(x.args) and y.args[-1] is not x.args[-1]:
        return sure(Edit("another table's entries win", x, y, True))
    if x.op == "dict" and any(l.op == "del" for l in x.args) and all(l.op in ("del", "rest") for l in x.args) and sum(l.op == "rest" for l in x.args) == 1 and \
            x.args[0].op == "rest" and y is x.args[0].args[0] and not any(z.op in ("many", "fold", "any") and any(u is y for u in walk(z)) for z in walk(sb)):
        return sure(Edit("entries are no longer taken out", x, y, True))
    if y.op == "dict" and len(y.args) == 1 and y.args[0].op == "many" and len(y.args[0].args[2]) == 1 and x.op in ("param", "attr", "meth", "smeth", "rest"):
        h, dom, (l,) = y.args[0].args
        c, l = (l.args[0], l.args[1]) if l.op == "g" and len(l.args) == 2 else (None, l)
        if l.op == "kv" and dom.op == "dim" and l.args[1].op == "index" and l.args[1].args[0] is x and l.args[1].args[1] is l.args[0] and \
                l.args[0].op == "index" and l.args[0].args[0] is dom.args[0]:
            if dom.args[0] is not x:
                return sure(Edit("only the entries which another table has are taken", x, dom.args[0], True))
            if c is not None and (any(z is l.args[1] for z in walk(c)) or c.op == "in" and not any(z is x for z in walk(c.args[1]))):
                return sure(Edit("some of the entries are left out", x, c, True))
    # a comparison of contents became one of sizes
    if x.op == "icall" and peel(y)[0].op in ("and", "or", "eq", "not", "is", "lt") and any(z.op == "dim" for z in walk(y)) and \
            not any(z.op in BIND or z.op in ("icall", "call") for z in walk(y)) and \
            all(z.args[0].op == "dim" and z.args[1].op == "dim" for z in walk(y) if z.op == "eq"):
        return sure(Edit("a comparison of contents became one of sizes", x, y, True))
    # a check of the content is made in some cases only
    if x.op == "ev" and y.op == "g" and len(y.args) == 2 and cmp_.eq(x, y.args[1]) and x.args[0].op == "icall" and "check" in x.args[0].args[0]:
        own = {z for z in walk(x) if z.op in ("param", "attr")}
        if any(z.op in ("param", "attr") and z not in own and z.op == "attr" for z in walk(y.args[0])):
            return sure(Edit("a check is made in some cases only", x, y.args[0], True))
    # lists: order and extent
    ps = {z for z in walk(x) if z.op == "param"}
    if not calls(sa, "sorted") and not calls(sa, "numpy.sort"):
        for z in calls(y, "sorted"):
            if any(k in ("key", "reverse") for k, _ in z.args[2]) and any(q.op == "many" for q in walk(z)) and x.op in ("list", "many"):
                return sure(Edit("put into another order", x, z, True))
    for q in ps:
        if {"items"} <= reads(x, q) and any(z.op in ("any", "many", "sumof") and any(u is q for u in walk(z.args[1])) for z in walk(x) if len(z.args) > 1 and isinstance(z.args[1], T)):
            got = reads(y, q)
            if "position" in got and not got & {"items", "whole"}:
                return sure(Edit("only the first items take part", x, y, True))
    # values put in order for one of the tables only, and left so
    if y.op == "index" and y.args[1].op == "call" and y.args[1].args[0] == "numpy.argsort" and y.args[0] is x and kwarg(y.args[1], "a") is x and \
            x.op in ("param", "attr"):
        o = y.args[1]
        users = [z for z in walk(sb) if z is not o and any(u is o for u in children(z))]
        if users == [y] and not any(z.op == "call" and z.args[0] in UNORDERED and any(u is y for u in walk(z)) for z in walk(sb)):
            return sure(Edit("put into another order", x, y, True))
    # a selection is no longer made
    if x.op == "index" and is_mask(x.args[1]) and cmp_.eq(x.args[0], y) and len(choices(sb)) <= len(choices(sa)) and not selections(sb) - selections(sa):
        return sure(Edit("values are no longer selected", x, y, True))
    if x.op == "index" and x.args[1].op in ("index", "call") and cmp_.eq(x.args[0], y) and calls(x.args[1], "numpy.where") and len(choices(sb)) <= len(choices(sa)) and \
            not selections(sb) - selections(sa):
        return sure(Edit("values are no longer selected", x, y, True))
    # positions looked up became the first so many
    if x.op == "call" and str(x.args[0]).startswith("numpy.unique") or x.op == "call" and x.args[0] in ("numpy.argsort", "numpy.flatnonzero"):
        n = y.args[1] if y.op == "slice" and (y.args[0] is NONE or y.args[0] is const(0)) and y.args[2] is NONE else kwarg(y, "stop") if y.op == "call" and y.args[0] == "numpy.arange" else None
        if n is not None and n.op == "dim" and n.args[0] is x:
            return sure(Edit("positions looked up became the first so many", x, y, True))
    if y.op == "index" and y.args[1].op == "slice" and (y.args[1].args[0] is NONE or y.args[1].args[0] is const(0)) and y.args[1].args[1].op == "dim":
        u = y.args[1].args[1].args[0]
        if u.op == "call" and str(u.args[0]).startswith("numpy.unique") and any(z.op == "index" and z.args[0] is y.args[0] and any(q is u for q in walk(z.args[1])) for z in walk(x)):
            return sure(Edit("positions looked up became the first so many", x, y, True))
    if x.op == "call" and x.args[0] == "numpy.unique#inverse" and calls(sb, "numpy.unique") and not calls(y, "numpy.searchsorted"):
        v = kwarg(x, "ar")
        if v is not None and any(z is v for z in outcomes(y, [])):
            return sure(Edit("values stand for positions", x, y, True))
    # which output of unique
    ux = {z.args[0] for z in walk(x) if z.op == "call" and str(z.args[0]).startswith("numpy.unique#")}
    uy = {z.args[0] for z in walk(y) if z.op == "call" and str(z.args[0]).startswith("numpy.unique#")}
    if ux and not uy and calls(y, "numpy.unique") and not loopy(y) and not calls(y, "numpy.searchsorted") and y.op == "add":
        return sure(Edit("positions worked out from the values", x, y, True))
    if len(ux) == 1 and len(uy) == 1 and ux != uy and x.op == y.op == "call":
        return sure(Edit("positions of another kind", x, y, True))
    # text
    tx = {z.args[0] for z in walk(x) if z.op == "meth" and z.args[0] in TEXTUAL}
    ty = {z.args[0] for z in walk(y) if z.op == "meth" and z.args[0] in TEXTUAL}
    if tx and ty:
        wx = {cval(z) for z in walk(x) if is_const(z) and z.args[0] == "str" and cval(z)}
        wy = {cval(z) for z in walk(y) if is_const(z) and z.args[0] == "str" and cval(z)}
        if wx and wy and not wx & wy and {z for z in walk(x) if z.op in ("attr", "param")} == {z for z in walk(y) if z.op in ("attr", "param")}:
            return sure(Edit("text taken apart at another place", x, y, True))
    return None
