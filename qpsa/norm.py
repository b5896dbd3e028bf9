"""Smart constructors: algebraic and boolean normal forms applied while terms are built."""
from .terms import T, mk, const, cval, is_const, is_num, NONE, TRUE, FALSE, BOTTOM

ONE, ZERO = const(1), const(0)

BOOL_OPS = {"lt", "le", "eq", "not", "and", "or", "in", "isnone", "any", "exc", "isinst"}


def is_bool(t):
    return t.op in BOOL_OPS or (is_const(t) and t.args[0] == "bool")


def is_arr_like(t):
    return t.op not in ("tuple", "list", "dict", "fstr") and not (is_const(t) and t.args[0] == "str")


# ------------------------------------------------------------------ arithmetic
def _split(t):
    """-> (numeric coefficient, base or None)"""
    if is_num(t):
        return cval(t), None
    if t.op == "mul" and is_num(t.args[0]):
        rest = t.args[1:]
        return cval(t.args[0]), rest[0] if len(rest) == 1 else mk("mul", *rest)
    return 1, t


def _base_id(t):
    c, b = _split(t)
    return (b.id if b is not None else 0), t.id


def is_seq(t):
    if t.op in ("list", "tuple", "fstr"):
        return True
    if is_const(t) and t.args[0] in ("str", "bytes"):
        return True
    return t.op == "concat"


def add(*ts):
    if any(is_seq(t) for t in ts):
        return concat(*ts)
    coef, order = {}, []
    k = 0
    stack = list(ts)[::-1]
    while stack:
        t = stack.pop()
        if t.op == "add":
            stack.extend(t.args[::-1])
            continue
        if t is BOTTOM:
            return BOTTOM
        c, b = _split(t)
        if b is None:
            k += c
        else:
            if b not in coef:
                coef[b] = 0
                order.append(b)
            coef[b] += c
    terms = []
    for b in order:
        c = coef[b]
        if c == 0:
            continue
        terms.append(b if c == 1 else mul(const(c), b))
    terms.sort(key=_base_id)
    if k != 0:
        terms.append(const(k))
    if not terms:
        return const(k)
    if len(terms) == 1:
        return terms[0]
    return mk("add", *terms)


def concat(*ts):
    out = []
    for t in ts:
        if t.op == "concat":
            out.extend(t.args)
        else:
            out.append(t)
    res = []
    for t in out:
        if res and res[-1].op == t.op and t.op in ("list", "tuple"):
            res[-1] = mk(t.op, *(res[-1].args + t.args))
        elif res and is_const(t) and is_const(res[-1]) and t.args[0] == res[-1].args[0] == "str":
            res[-1] = const(cval(res[-1]) + cval(t))
        else:
            res.append(t)
    if all(t.op == "fstr" or (is_const(t) and t.args[0] == "str") for t in res):
        return fstr(*res)
    if any(t.op == "fstr" or (is_const(t) and t.args[0] == "str") for t in res):
        return fstr(*res)
    return res[0] if len(res) == 1 else mk("concat", *res)


def fstr(*parts):
    out = []
    for p in parts:
        for q in (p.args if p.op == "fstr" else (p,)):
            if is_const(q) and q.args[0] == "str":
                if cval(q) == "":
                    continue
                if out and is_const(out[-1]) and out[-1].args[0] == "str":
                    out[-1] = const(cval(out[-1]) + cval(q))
                    continue
            out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and is_const(out[0]) and out[0].args[0] == "str":
        return out[0]
    return mk("fstr", *out)


def neg(t):
    return mul(const(-1), t)


def sub(a, b):
    return add(a, neg(b))


def mul(*ts):
    coef = 1
    exps, order = {}, []
    stack = list(ts)[::-1]
    while stack:
        t = stack.pop()
        if t.op == "mul":
            stack.extend(t.args[::-1])
            continue
        if is_num(t):
            coef = coef * cval(t)
            continue
        if t.op == "pow" and is_num(t.args[1]):
            b, e = t.args[0], cval(t.args[1])
        else:
            b, e = t, 1
        if b not in exps:
            exps[b] = 0
            order.append(b)
        exps[b] += e
    fs = []
    for b in order:
        e = exps[b]
        if e == 0:
            continue
        p = b if e == 1 else power(b, const(e))
        if is_num(p):
            coef *= cval(p)
        else:
            fs.append(p)
    if coef == 0:
        return ZERO
    fs.sort(key=lambda t: t.id)
    if not fs:
        return const(coef)
    if coef != 1:
        if len(fs) == 1 and fs[0].op == "add":      # k*(a+b) = k*a + k*b
            return add(*[mul(const(coef), x) for x in fs[0].args])
        return mk("mul", const(coef), *fs)
    return fs[0] if len(fs) == 1 else mk("mul", *fs)


def power(a, b):
    if is_num(b):
        e = cval(b)
        if e == 1:
            return a
        if e == 0:
            return ONE
        if is_num(a):
            try:
                v = cval(a) ** e
                if not isinstance(v, complex):
                    return const(v)
            except (ZeroDivisionError, OverflowError):
                pass
        if a.op == "pow" and is_num(a.args[1]) and isinstance(e, int):
            return power(a.args[0], const(cval(a.args[1]) * e))
        if a.op == "mul" and isinstance(e, int):
            return mul(*[power(x, b) for x in a.args])
        if isinstance(e, int) and e % 2 == 0 and a.op == "add":
            c, _ = _split(a.args[0])
            if c < 0:
                a = neg(a)
        if isinstance(e, int) and a.op == "add":
            # factor a common numeric sign out for odd powers too
            c, _ = _split(a.args[0])
            if c < 0:
                return mul(const(-1), mk("pow", neg(a), b))
    return mk("pow", a, b)


def div(a, b):
    return mul(a, power(b, const(-1)))


# ------------------------------------------------------------------ booleans
def truth(t):
    """a term used as a condition"""
    if is_const(t):
        return TRUE if cval(t) else FALSE
    if t.op in ("list", "tuple"):
        if not t.args:
            return FALSE
        if any(a.op == "el" for a in t.args) or t.op == "tuple":
            return TRUE
    if t.op == "dict":
        if not t.args:
            return FALSE
        if t.args[-1].op == "kv":
            return TRUE
    if t.op == "ite":
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op == "call" and t.args[0] == "bool" and len(t.args[1]) == 1:
        return truth(t.args[1][0])
    return t


def not_(t):
    t = truth(t)
    if is_const(t):
        return FALSE if cval(t) else TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "and":
        return or_(*[not_(x) for x in t.args])
    if t.op == "or":
        return and_(*[not_(x) for x in t.args])
    if t.op == "ite" and is_bool(t.args[1]) and is_bool(t.args[2]):
        return ite(t.args[0], not_(t.args[1]), not_(t.args[2]))
    return mk("not", t)


def _nary(op, unit, zero, ts):
    out = []
    for t in ts:
        t = truth(t)
        if t is unit:
            continue
        if t is zero:
            return zero
        for x in (t.args if t.op == op else (t,)):
            if x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return zero
    # absorption
    dual = "or" if op == "and" else "and"
    out = [x for x in out if not (x.op == dual and any(y in x.args for y in out if y is not x))]
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk(op, *out)


def and_(*ts):
    return _nary("and", TRUE, FALSE, ts)


def or_(*ts):
    return _nary("or", FALSE, TRUE, ts)


def lt(a, b):
    if is_num(a) and is_num(b):
        return const(cval(a) < cval(b))
    return mk("lt", a, b)


def le(a, b):
    if is_num(a) and is_num(b):
        return const(cval(a) <= cval(b))
    return mk("le", a, b)


def eq(a, b):
    if a is b and a.op in ("const", "param", "self"):
        return TRUE
    if is_const(a) and is_const(b):
        try:
            return const(bool(cval(a) == cval(b)))
        except Exception:   # pragma: no cover
            pass
    if a is NONE:
        return isnone(b)
    if b is NONE:
        return isnone(a)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


NOTNONE = {"list", "tuple", "dict", "add", "mul", "pow", "lt", "le", "eq", "and", "or", "not", "new", "lam",
           "fstr", "rec", "concat", "shape", "size", "ndim", "isnone", "in", "any", "slice", "sumof", "fill",
           "setitem", "gref", "fref", "cref", "enum", "hcall"}


NEVER_NONE = set()    # functions of the package whose every return hands back something


def isnone(t):
    if t is NONE:
        return TRUE
    if t.op == "icall" and t.args[0] in NEVER_NONE:
        return FALSE
    if is_const(t) or t.op in NOTNONE:
        return FALSE
    if t.op == "call" and isinstance(t.args[0], str) and t.args[0].startswith("numpy."):
        return FALSE
    if t.op == "ite":
        a, b = isnone(t.args[1]), isnone(t.args[2])
        return bite(t.args[0], a, b)
    return mk("isnone", t)


def bite(c, a, b):
    """boolean if-then-else"""
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a is TRUE:
        return or_(c, b)
    if a is FALSE:
        return and_(not_(c), b)
    if b is TRUE:
        return or_(not_(c), a)
    if b is FALSE:
        return and_(c, a)
    return mk("ite", c, a, b)


def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is BOTTOM:
        return b
    if b is BOTTOM:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "ite":
        return ite(c.args[0], ite(c.args[1], a, b), ite(c.args[2], a, b))
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if is_bool(a) and is_bool(b) and (is_const(a) or is_const(b)):
        return bite(c, a, b)
    return mk("ite", c, a, b)


# ------------------------------------------------------------------ containers
def kv(k, v):
    return mk("kv", k, v)


def mkdict(layers):
    """layers in assignment order; later wins"""
    out = []
    for l in layers:
        if l.op == "rest" and l.args[0].op == "dict":
            over = l.args[0].args if not out else _laid_over(out, l.args[0].args)
            for m in over if over is not None else (l,):
                out = _push(out, m)
        else:
            out = _push(out, l)
    return mk("dict", *out)


def _takes_out(m):
    return m.op == "del" or m.op == "g" and m.args[1].op == "del"


def _laid_over(under, layers):
    """layers of a table spread over others: an entry it had taken out of itself leaves the one underneath as it is; None when that cannot be told"""
    if not any(_takes_out(m) for m in layers):
        return layers
    out = []
    for m in layers:
        if not _takes_out(m):
            out.append(m)
            continue
        if m.op != "del" or not is_const(m.args[0]):
            return None
        for l in reversed(under):
            if l.op not in ("kv", "del") or not is_const(l.args[0]):
                return None
            if l.args[0] is m.args[0]:
                out.append(l)
                break
        else:
            out.append(m)
    return out


def _push(out, l):
    if l.op in ("kv", "del"):
        k = l.args[0]
        keep = [m for m in out if not (m.op in ("kv", "del") and m.args[0] is k)]
        keep = [m for m in keep if not (m.op == "g" and m.args[1].op in ("kv", "del") and m.args[1].args[0] is k)]
        if l.op == "del" and all(m.op == "kv" and is_const(m.args[0]) for m in keep) and is_const(k):
            return keep
        return keep + [l]
    if l.op == "g" and l.args[0] is TRUE:
        return _push(out, l.args[1])
    if l.op == "g" and l.args[0] is FALSE:
        return out
    return out + [l]


MISSING = mk("missing")


def dict_get(d, k, default=None):
    """value of key k in term d; default None means d[k]"""
    def opaque(base):
        if default is None:
            return mk("index", base, k)
        return mk("getdef", base, k, default)
    if d.op == "ite":
        return ite(d.args[0], dict_get(d.args[1], k, default), dict_get(d.args[2], k, default))
    if d.op != "dict":
        return opaque(d)
    layers = list(d.args)
    while layers:
        l = layers[-1]
        if l.op in ("kv", "del"):
            if l.args[0] is k:
                if l.op == "kv":
                    return l.args[1]
                return default if default is not None else MISSING
            if is_const(l.args[0]) and is_const(k):
                layers.pop()
                continue
            if l.op == "del" and default is None:
                layers.pop()
                continue
        elif l.op == "g" and l.args[1].op in ("kv", "del"):
            kk = l.args[1].args[0]
            if kk is k:
                rest = dict_get(mk("dict", *layers[:-1]), k, default)
                v = l.args[1].args[1] if l.args[1].op == "kv" else (default if default is not None else MISSING)
                return ite(l.args[0], v, rest)
            if is_const(kk) and is_const(k):
                layers.pop()
                continue
        elif l.op == "rest" and len(layers) == 1:
            return dict_get(l.args[0], k, default)
        elif l.op == "rest":
            # unknown table laid over known entries
            base = dict_get(mk("dict", *layers[:-1]), k, default) if default is not None else None
            if base is not None:
                return dict_get(l.args[0], k, base)
        break
    if not layers:
        return default if default is not None else MISSING
    return opaque(mk("dict", *layers))


def dict_has(d, k):
    if d.op == "dict":
        layers = list(d.args)
        while layers:
            l = layers[-1]
            if l.op in ("kv", "del"):
                if l.args[0] is k:
                    return TRUE if l.op == "kv" else FALSE
                if is_const(l.args[0]) and is_const(k):
                    layers.pop()
                    continue
            elif l.op == "rest" and len(layers) == 1:
                return dict_has(l.args[0], k)
            break
        if not layers:
            return FALSE
        return mk("in", k, mk("dict", *layers))
    return mk("in", k, d)


def member(k, d):
    if d.op in ("list", "tuple") and all(a.op == "el" for a in d.args if d.op == "list"):
        els = [a.args[0] for a in d.args] if d.op == "list" else list(d.args)
        if d.op == "tuple":
            els = list(d.args)
        return or_(*[eq(k, e) for e in els]) if els else FALSE
    return dict_has(d, k)


def index(b, k):
    if b.op in ("tuple", "list") and is_const(k) and k.args[0] == "int":
        els = list(b.args)
        if b.op == "list":
            if any(e.op != "el" for e in els):
                return mk("index", b, k)
            els = [e.args[0] for e in els]
        i = cval(k)
        if -len(els) <= i < len(els):
            return els[i]
        return mk("index", b, k)
    if b.op in ("tuple", "list") and k.op == "slice" and all(x is NONE or (is_const(x) and x.args[0] == "int") for x in k.args):
        if b.op == "tuple" or all(e.op == "el" for e in b.args):
            s = slice(*[None if x is NONE else cval(x) for x in k.args])
            return mk(b.op, *b.args[s])
    if b.op == "dict":
        return dict_get(b, k)
    if b.op == "ite" and b.args[1].op in ("tuple", "dict") and b.args[2].op in ("tuple", "dict"):
        return ite(b.args[0], index(b.args[1], k), index(b.args[2], k))
    return mk("index", b, k)


def mklist(*els):
    return mk("list", *[mk("el", e) for e in els])


def call(f, args=(), kw=()):
    return mk("call", f, tuple(args), tuple(sorted(kw, key=lambda p: p[0])))


# ------------------------------------------------------------------ binders
def heights(t, memo={}):
    """largest binder height in t"""
    r = memo.get(t.id)
    if r is not None:
        return r
    h = 0
    if t.op in ("many", "sumof", "any", "lam", "fold", "fill", "first", "last"):
        h = max(h, t.args[0])
    stack = []
    for a in t.args:
        if isinstance(a, T):
            stack.append(a)
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    stack.append(b)
                elif isinstance(b, tuple):
                    stack.extend(c for c in b if isinstance(c, T))
    for c in stack:
        h = max(h, heights(c))
    memo[t.id] = h
    return h


_tmp = [0]


def fresh_tmp():
    _tmp[0] += 1
    return mk("tmpv", _tmp[0])


def close(kind, tmps, body, *extra):
    """bind the temporaries in body (a tuple of terms) -> mk(kind, h, ...)"""
    from .terms import subst
    h = 0
    for t in body:
        if isinstance(t, T):
            h = max(h, heights(t))
    for e in extra:
        if isinstance(e, T):
            h = max(h, heights(e) if kind == "fold" else 0)
    h += 1
    m = {t: mk("bv", h, i) for i, t in enumerate(tmps)}
    memo = {}
    nb = tuple(subst(t, m, memo) for t in body)
    return h, nb, m


# ------------------------------------------------------------------ rebuilding in normal form
def remake(op, args):
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "pow":
        return power(*args)
    if op == "not":
        return not_(args[0])
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "lt":
        return lt(*args)
    if op == "le":
        return le(*args)
    if op == "eq":
        return eq(*args)
    if op == "isnone":
        return isnone(args[0])
    if op == "ite":
        return ite(*args)
    if op == "index":
        return index(*args)
    if op == "in":
        return member(*args)
    if op == "getdef":
        return dict_get(*args)
    if op == "dict":
        return mkdict(args)
    if op == "fstr":
        return fstr(*args)
    if op == "concat":
        return concat(*args)
    if op == "list":
        out = []
        for a in args:
            if a.op == "g" and a.args[0] is TRUE:
                a = a.args[1]
            if a.op == "g" and a.args[0] is FALSE:
                continue
            out.append(a)
        return mk("list", *out)
    if op == "g":
        c = truth(args[0])
        if c is TRUE:
            return args[1]
        return mk("g", c, args[1])
    return mk(op, *args)


def nmap(t, fn):
    """apply fn to the direct children, re-normalising"""
    changed = False
    def conv(a):
        nonlocal changed
        if isinstance(a, T):
            r = fn(a)
            if r is not a:
                changed = True
            return r
        if isinstance(a, tuple):
            return tuple(conv(b) for b in a)
        return a
    new = tuple(conv(a) for a in t.args)
    return remake(t.op, new) if changed else t


def nsubst(t, mapping, memo=None):
    memo = {} if memo is None else memo
    def go(x):
        r = mapping.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is None:
            r = nmap(x, go)
            memo[x] = r
        return r
    return go(t)


def bind(kind, tmps, *parts):
    """kind over temporaries: parts are terms / tuples of terms in scope of the binder;
    returns (h, converted parts)"""
    flat = []
    def coll(a):
        if isinstance(a, T):
            flat.append(a)
        elif isinstance(a, tuple):
            for b in a:
                coll(b)
    for p in parts:
        coll(p)
    h = 1 + max([heights(t) for t in flat] or [0])
    m = {t: mk("bv", h, i) for i, t in enumerate(tmps)}
    memo = {}
    def conv(a):
        if isinstance(a, T):
            return nsubst(a, m, memo)
        if isinstance(a, tuple):
            return tuple(conv(b) for b in a)
        return a
    return h, [conv(p) for p in parts]


def assume(t, c, val, memo=None):
    """t simplified knowing that condition c is val"""
    m = {}
    def learn(c, v):
        c = truth(c)
        if c.op == "not":
            learn(c.args[0], not v)
            return
        if c.op == "and" and v:
            for x in c.args:
                learn(x, True)
        elif c.op == "or" and not v:
            for x in c.args:
                learn(x, False)
        if not is_const(c):
            m[c] = TRUE if v else FALSE
            if v and c.op == "isnone":
                m[c.args[0]] = NONE
            elif v and c.op == "eq":
                a, b = c.args
                if is_const(a) and not is_const(b):
                    m.setdefault(b, a)
                elif is_const(b) and not is_const(a):
                    m.setdefault(a, b)
            if c.op == "lt":
                if v:
                    m.setdefault(mk("lt", c.args[1], c.args[0]), FALSE)
                    m.setdefault(mk("le", c.args[1], c.args[0]), FALSE)
                    m.setdefault(mk("le", c.args[0], c.args[1]), TRUE)
                else:
                    m.setdefault(mk("le", c.args[1], c.args[0]), TRUE)
            if c.op == "le":
                if not v:
                    m.setdefault(mk("lt", c.args[1], c.args[0]), TRUE)
                    m.setdefault(mk("lt", c.args[0], c.args[1]), FALSE)
                else:
                    m.setdefault(mk("lt", c.args[1], c.args[0]), FALSE)
    learn(c, val)
    return nsubst(t, m)
