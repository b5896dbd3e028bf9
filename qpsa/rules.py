"""Rules that need no accepted definition: each one states a discipline, enumerates the sites it
applies to in the analysed tree and reports the sites that break it."""
import ast

from . import cones
from .source import Cls
from .terms import mk, is_const, walk, show, rebuild, NONE


class Result:
    def __init__(self, name, statement):
        self.name, self.statement = name, statement
        self.instances, self.ok, self.bad, self.open, self.broken = [], 0, [], [], None

    def good(self, site):
        self.instances.append(site)
        self.ok += 1

    def fail(self, construct, where, text):
        self.instances.append(construct)
        self.bad.append((construct, where, text))

    def unknown(self, construct, where, text):
        self.instances.append(construct)
        self.open.append((construct, where, text))


def where(f):
    return f"{f.module.path}:{f.node.lineno}"


def functions(w):
    """(function, class) of the analysed tree, with the accepted counterpart where there is one"""
    for k, f in sorted(w.U.funcs.items()):
        if f.module.name in ("qp._version", "qp.version"):
            continue
        yield k, f


def summ(w, f, uni=None):
    s = w.summary(uni or w.U, f, f.cls)
    return None if isinstance(s, Exception) else s


def flat_events(s):
    """(path, effect) pairs"""
    out = []
    def go(c, e):
        if e.op == "g":
            go(c + (e.args[0],), e.args[1])
        elif e.op == "many":
            for x in e.args[-1] if isinstance(e.args[-1], tuple) else ():
                go(c, x)
        else:
            out.append((c, e))
    for e in s.events:
        go((), e)
    return out


def leaves_of(t, path=()):
    """(path, value) of a gated value"""
    if t.op == "ite":
        c, a, b = t.args
        yield from leaves_of(a, path + ((c, True),))
        yield from leaves_of(b, path + ((c, False),))
    else:
        yield path, t


def literals(path):
    """the atomic facts that must hold on a path"""
    out = []
    def go(c, v):
        if c.op == "not":
            go(c.args[0], not v)
        elif c.op == "and" and v or c.op == "or" and not v:
            for x in c.args:
                go(x, v)
        else:
            out.append((c, v))
    for c, v in path:
        go(c, v)
    return out


# ---------------------------------------------------------------- storage of the caller
SCALAR_USES = ("range",)


def arrayish(w):
    """function key -> names of its parameters that are used as arrays or tables"""
    r = getattr(w, "_arrayish", None)
    if r is not None:
        return r
    U = w.U
    use, flows = {}, []
    for k, f in U.funcs.items():
        a = f.node.args
        names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        hit, scalar = set(), set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in names:
                hit.add(n.value.id)
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in names:
                hit.add(n.value.id)
            elif isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name) and n.iter.id in names:
                hit.add(n.iter.id)
            elif isinstance(n, ast.Call):
                fn = n.func
                nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, "id", "")
                np_call = isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ("np", "numpy")
                for i, x in enumerate(n.args):
                    if isinstance(x, ast.Name) and x.id in names:
                        if nm == "range" or np_call and nm in ("linspace", "arange", "zeros", "ones", "empty"):
                            scalar.add(x.id)
                        elif np_call or nm in ("len", "interp1d", "splrep", "enumerate", "zip"):
                            hit.add(x.id)
                        else:
                            flows.append((k, x.id, nm, i, None))
                for kw in n.keywords:
                    if isinstance(kw.value, ast.Name) and kw.value.id in names:
                        flows.append((k, kw.value.id, nm, None, kw.arg))
        plain = {x.arg for x in a.args[:len(a.args) - len(a.defaults)]}
        for n in list(ast.walk(f.node)) + (list(ast.walk(w.R.funcs[k].node)) if k in w.R.funcs else []):
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and isinstance(n.left, ast.Name) and isinstance(n.right, ast.Name) and \
                    n.left.id in plain and n.right.id in plain:
                hit |= {n.left.id, n.right.id}
        for x, d in list(zip([y.arg for y in a.args][len(a.args) - len(a.defaults):], a.defaults)) + \
                [(y.arg, d) for y, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if isinstance(d, ast.Constant) and isinstance(d.value, (int, float, str, bool)):
                scalar.add(x)
        if f.name in ("_pdf", "_cdf", "_ppf"):
            hit |= names - {"self"}
        use[k] = hit - scalar
    by_name = {}
    for k, f in U.funcs.items():
        by_name.setdefault(f.name, []).append(f)
    for _ in range(3):
        for k, p, nm, i, kw in flows:
            for g in by_name.get(nm, ()):
                pos = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
                if g.cls is not None and g.kind != "static" and pos:
                    pos = pos[1:]
                q = kw if kw else (pos[i] if i is not None and i < len(pos) else None)
                if q in use.get(g.key, ()):
                    use[k].add(p)
    w._arrayish = use
    return use


def ref_roots(w, key):
    f = w.R.funcs.get(key)
    s = summ(w, f, w.R) if f is not None else None
    return {e.args[0] for _, e in flat_events(s) if e.op == "mut"} if s is not None else set()


def storage_of_attr(w, cls, name):
    """what the attribute may be a view of: a parameter of some method of the class, or None"""
    for c in [cls] + [x for x in w.U.mro(cls) if isinstance(x, Cls)]:
        for f in list(c.methods.values()) + list(c.setters.values()):
            s = summ(w, f)
            if s is None:
                continue
            v = s.attrs.get((mk("self"), name))
            if v is None:
                continue
            for _, leaf in leaves_of(v):
                r = view_root(leaf)
                if r is not None and r.op == "param":
                    return f"{f.key}({r.args[0]})"
    return None


VIEWS = {"numpy.asarray", "numpy.reshape", "numpy.ravel", "numpy.squeeze", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.expand_dims",
         "numpy.swapaxes", "numpy.transpose", "numpy.asanyarray", "numpy.moveaxis"}


def view_root(t):
    for _ in range(20):
        if t.op in ("param", "gref"):
            return t
        if t.op == "attr" and t.args[1] == "T":
            t = t.args[0]
        elif t.op == "meth" and t.args[0] in ("reshape", "ravel", "squeeze", "swapaxes", "transpose", "view"):
            t = t.args[1]
        elif t.op == "call" and t.args[0] in VIEWS:
            d = dict(t.args[2])
            t = t.args[1][0] if t.args[1] else d.get("a", d.get("arys", NONE))
        elif t.op == "expand":
            t = t.args[0]
        elif t.op == "icall" and t.args[0] in ("reshape_to_pdf_size", "reshape_to_pdf_shape"):
            t = dict(t.args[1]).get("vals", NONE)
        elif t.op in ("setitem", "inplace"):
            return None
        else:
            return None
    return None


def handed_by(w, cls):
    """attributes whose very value (not a copy) a method of the class hands to its callers when asked again"""
    memo = w.__dict__.setdefault("_handed_by", {})
    if cls not in memo:
        memo[cls] = set()
        for c in [cls] + [x for x in w.U.mro(cls) if isinstance(x, Cls)]:
            for f in c.methods.values():
                s = summ(w, f)
                if s is None:
                    continue
                for _, leaf in leaves_of(s.ret):
                    if leaf.op == "attr" and leaf.args[0] is SELF:
                        memo[cls].add(leaf.args[1])
    return memo[cls]


TAKERS = {"update", "pop", "popitem", "clear", "setdefault", "append", "extend", "insert", "remove", "sort", "reverse", "fill", "resize", "put", "itemset", "__setitem__"}
IN_PLACE = {"set_val_or_default": {"in_dict"}, "sparse_basis": {"dictionary"}}


def caller_storage(w, thorough=False):
    r = getattr(w, "_caller_storage", None)
    if r is not None:
        return r
    r = w._caller_storage = Result("caller-storage", "no function writes, directly or through a view, into an array or table that it was handed or that "
                                   "another object owns (set_val_or_default and sparse_basis, documented to, apart)")
    arr = arrayish(w)
    for k, f in functions(w):
        if k not in w.R.funcs:
            continue            # a helper is judged where it is used
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        bad = None
        old = ref_roots(w, k)
        for _, e in flat_events(s):
            if e.op != "mut":
                continue
            t = e.args[0]
            if t.op == "param":
                if t.args[0] in IN_PLACE.get(f.name, ()):
                    continue
                # names the analysed tree uses for that parameter
                names = {t.args[0]} | set(renamed(w, f, t.args[0]))
                if names & arr.get(k, set()):
                    bad = f"writes into its argument {t.args[0]}: {show(e.args[1], 5)[:200]}"
            elif t.op == "entry" and t not in old:
                bad = f"writes into a value of {t.args[0].args[0]}, which is the caller's"
            elif t.op in ("meth", "smeth") and t not in old:
                bad = f"writes into what {t.args[0]}() hands out, which its owner goes on using"
            elif t.op == "attr":
                base, a = t.args
                if base.op in ("self", "clsself"):
                    if base.op == "self" and f.cls is not None and t not in old:
                        src = storage_of_attr(w, f.cls, a)
                        if src is not None:
                            bad = f"writes into self.{a}, which is the caller's array given to {src}"
                        elif (SELF, a) not in s.attrs or any(leaf is t for _, leaf in leaves_of(s.attrs[(SELF, a)])):
                            if a in handed_by(w, f.cls):
                                bad = f"writes into self.{a}, which has been handed to callers"
                elif t not in old and not (base.op == "gref" and a == "rcParams"):
                    bad = f"writes into {show(t, 4)}, which another object owns"
        for _, e in flat_events(s):
            if e.op != "ev" or e.args[0].op != "meth" or e.args[0].args[0] not in TAKERS:
                continue
            for _, leaf in leaves_of(w.canon(e.args[0].args[1])):
                if leaf.op == "attr" and leaf.args[0] is SELF and f.cls is not None:
                    src = storage_of_attr(w, f.cls, leaf.args[1])
                    if src is not None and leaf not in old:
                        bad = bad or f"changes self.{leaf.args[1]}, which is the caller's table given to {src}, by {e.args[0].args[0]}()"
                elif leaf.op in ("getdef", "index") and leaf.args[0].op == "param" and \
                        leaf.args[0].args[0] in _stars(f):
                    bad = bad or f"changes a value of {leaf.args[0].args[0]}, which is the caller's, by {e.args[0].args[0]}()"
        for (b, a), t in s.attrs.items():
            if a in ("shape", "dtype", "flags", "strides", "T", "flat", "real", "imag") and b.op == "param" and w.canon(t) is not mk("attr", b, a):
                bad = f"changes the {a} of its argument {b.args[0]} in place"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


def _stars(f):
    a = f.node.args
    return {x.arg for x in (a.vararg, a.kwarg) if x is not None}


def renamed(w, f, name):
    ref = w.ref_params.get(f.key)
    if ref is None or name not in ref[0]:
        return ()
    pos = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
    i = ref[0].index(name)
    return (pos[i],) if i < len(pos) else ()


# ---------------------------------------------------------------- values kept between calls
LOSSY_CALL = {"id", "hash", "len", "type", "repr", "str", "round", "int", "bool", "sum", "min", "max", "abs", "sorted", "set", "frozenset"}
FAITHFUL_CALL = {"tuple", "float", "list", "bytes", "numpy.asarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.array", "numpy.ravel", "numpy.copy",
                 "numpy.ascontiguousarray", "numpy.squeeze", "numpy.float64"}
FAITHFUL_METH = {"tobytes", "tolist", "item", "copy", "ravel", "flatten", "items", "astype"}


def faithful_names(t, out=None):
    """parameters and attributes that are recoverable from a key"""
    out = set() if out is None else out
    if t.op in ("param", "self"):
        out.add(t)
    elif t.op == "attr" and t.args[0].op == "self":
        out.add(t)
    elif t.op in ("tuple", "list"):
        for x in t.args:
            faithful_names(x.args[0] if x.op == "el" else x, out)
    elif t.op == "call" and t.args[0] in FAITHFUL_CALL:
        for x in t.args[1] + tuple(v for _, v in t.args[2]):
            faithful_names(x, out)
    elif t.op == "meth" and t.args[0] in FAITHFUL_METH:
        faithful_names(t.args[1], out)
    elif t.op == "expand":
        faithful_names(t.args[0], out)
    elif t.op == "list" and any(x.op == "many" for x in t.args):
        pass
    elif t.op == "ite":
        faithful_names(t.args[1], out)
        faithful_names(t.args[2], out)
    return out


def names_in(t):
    return {x for x in walk(t) if x.op == "param" or x.op == "attr" and x.args[0].op == "self"}


def params_in(t):
    return {x for x in walk(t) if x.op == "param"}


def compared(path, f=None):
    """parameters whose whole value is known on the path to equal a stored one (or a constant)"""
    ok, named = set(), set()
    for c, v in literals(path):
        named |= params_in(c)
        if not v:
            continue
        if c.op == "eq":
            for a, b in (c.args, c.args[::-1]):
                ok |= {x for x in faithful_names(a) if x.op == "param"}
        elif c.op == "call" and c.args[0] in ("numpy.array_equal",):
            for x in c.args[1] + tuple(y for _, y in c.args[2]):
                ok |= {y for y in faithful_names(x) if y.op == "param"}
        elif c.op == "call" and c.args[0] in ("numpy.all", "all"):
            for x in c.args[1] + tuple(y for _, y in c.args[2]):
                if x.op == "eq":
                    for a in x.args:
                        ok |= {y for y in faithful_names(a) if y.op == "param"}
        elif c.op == "isnone" or c.op == "is":
            if c.op == "isnone" or NONE in c.args:
                ok |= {x for x in (c.args[0],) if x.op == "param"}
        elif c.op == "in":
            ok |= {x for x in faithful_names(c.args[0]) if x.op == "param"}
    return ok, named


def equated(path):
    """expressions known on the path to equal something stored"""
    out = set()
    for c, v in literals(path):
        if not v:
            continue
        if c.op == "eq":
            out |= set(c.args)
        elif c.op == "call" and c.args[0] == "numpy.array_equal":
            out |= set(c.args[1]) | {y for _, y in c.args[2]}
    return {x for x in out if not is_const(x)}


def without(t, known):
    memo = {}
    def go(x):
        if x in known:
            return mk("ref", "<known>")
        r = memo.get(x)
        if r is None:
            r = memo[x] = rebuild(x, go)
        return r
    return go(t)


def s_ret(w, f):
    s = summ(w, f)
    return NONE if s is None else s.ret


def self_reads(w, cls, name, seen=None):
    """attributes of self that a method reads, through other methods of the class too"""
    seen = set() if seen is None else seen
    if name in seen or cls is None:
        return set()
    seen.add(name)
    f = w.U.find_method(cls, name)
    if f is None:
        return set()
    a = f.node.args
    me = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else None
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load):
            if w.U.find_method(cls, n.attr) is not None:
                out |= self_reads(w, cls, n.attr, seen)
            else:
                out.add(n.attr)
    return out


def state_in(w, cls, val):
    out = set()
    for x in walk(val):
        if x.op == "attr" and x.args[0].op == "self":
            out.add(x.args[1])
        elif x.op == "smeth":
            out |= self_reads(w, cls, x.args[0])
    return out


SELF = mk("self")


def changers(w, cls):
    """public methods of a class that are not queries: attribute -> [(method, value term, all writes)]"""
    out = {}
    for c in [cls] + [x for x in w.U.mro(cls) if isinstance(x, Cls) and x is not cls]:
        for f in list(c.methods.values()) + list(c.setters.values()):
            if f.name.startswith("_") and not f.setter or f.kind in ("property", "class", "static") and not f.setter:
                continue
            if f.name.startswith("_"):
                continue
            s = w.summary(w.U, f, cls)
            if isinstance(s, Exception):
                continue
            for (b, a), v in s.attrs.items():
                if b is SELF:
                    out.setdefault(a, []).append((f, v, s))
    return out


def is_keep(leaf, root):
    return leaf is root


def kept_values(w, k, f):
    """-> [(root term, key term or None, stored value, path to reuse or None)] of values a function stores and reuses"""
    s = summ(w, f)
    if s is None:
        return []
    out = []
    C = w.canon
    written = {a for (b, a) in s.attrs if b.op in ("self", "clsself")}
    for (b, a), v in s.attrs.items():
        if b.op not in ("self", "clsself"):
            continue
        root = mk("attr", b, a)
        ls = list(leaves_of(C(v)))
        for path, leaf in ls:
            if leaf is not root:
                continue
            lits = literals(path)
            own = {x.args[1] for c, _ in lits for x in walk(c) if x.op == "attr" and x.args[0] is b}
            has = any(x.op == "call" and x.args[0] == "hasattr" or x.op == "exc" for c, _ in lits for x in walk(c))
            if not (own & written) and not has:
                continue
            for p2, new in ls:
                if new is not root:
                    out.append((root, None, new, path, p2))
    roots = {mk("attr", b, a) for (b, a) in s.attrs if b.op in ("self", "clsself")}
    roots |= {e.args[0] for _, e in flat_events(s) if e.op == "mut" and e.args[0].op in ("gref", "attr")}
    reads = set()
    for x in walk(s.ret):
        reads.add(x)
    seen = set()
    everything = [s.ret] + list(s.attrs.values()) + [e for _, e in flat_events(s)]
    for top in everything:
        for x in walk(C(top)):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "setitem":
                pairs = [(x.args[0], x.args[1], x.args[2])]
            elif x.op == "dict" and any(y.op == "rest" for y in x.args):
                base = next(y for y in x.args if y.op == "rest").args[0]
                pairs = [(base, y.args[0], y.args[1]) for y in x.args if y.op == "kv"]
            else:
                continue
            for base, key, val in pairs:
                hit = [r for r in roots if any(y is r for y in walk(base))]
                if not hit or not looked_up(s, hit[0], key, C):
                    continue
                out.append((hit[0], key, val, None, ()))
    return out


def looked_up(s, root, key, C):
    """the function answers from what is stored in root under a key"""
    for t in [s.ret] + list(s.attrs.values()):
        for x in walk(C(t)):
            if x.op == "in" and any(y is root for y in walk(x.args[1])):
                return True
            if x.op in ("index", "getdef") and any(y is root for y in walk(x.args[0])) and x.args[1] is key:
                return True
    return False


QUERY_EXEMPT = ("__init__", "__setitem__", "__setstate__", "update", "update_objdata", "append", "set_ancil", "add_to_ancil")


def kept(w, thorough=False):
    r = getattr(w, "_kept", None)
    if r is not None:
        return r
    r = w._kept = Result("kept-values", "a value kept between calls is reused only when everything it was computed from is known to be the same: "
                         "every argument it depends on is compared as a whole (or is part of the key), and every method that replaces the state "
                         "it depends on drops it; a query never rewrites a table from its own earlier content")
    for k, f in functions(w):
        if f.name in QUERY_EXEMPT or f.setter:
            continue
        cls = f.cls
        if cls is not None and any(b == ("ext", "enum.Enum") for b in w.U.mro(cls)):
            continue
        bad = decorated(w, f)
        for root, key, val, path, newpath in kept_values(w, k, f):
            name = show(root, 4)
            ps = {p for p in params_in(val)}
            if key is None:
                ok, named = compared(path)
                if root.args[0] is not SELF and not any(x is root for x in walk(s_ret(w, f))):
                    continue        # registration
                known = equated(path)
                if known:
                    val = without(val, known)
                    ps = params_in(val)
                fixed = set()
                for lit in literals(newpath):
                    if lit in literals(path) and lit[1]:
                        fixed |= params_in(lit[0])
                for p in sorted(ps - ok - fixed, key=lambda t: t.args[0]):
                    how = "is only partly compared" if p in named else "is not compared"
                    bad = bad or f"{name} is kept for later calls although argument {p.args[0]}, which it is computed from, {how} when it is reused"
                if any(x is root for x in walk(val)) and not bad:
                    bad = f"{name} is rewritten from its own earlier content: {show(val, 5)[:160]}"
            else:
                if root.args[0] is not SELF and not any(x is root for x in walk(s_ret(w, f))):
                    continue        # registration: nothing is answered from the table here
                have = faithful_names(key)
                for p in sorted(ps - have, key=lambda t: t.args[0]):
                    bad = bad or (f"{name} is kept under the key {show(key, 4)[:80]}, from which argument {p.args[0]}, "
                                  f"which the value depends on, cannot be told")
                if root.op == "gref" or root.op == "attr" and root.args[0].op in ("clsself", "cref"):
                    own = {x for x in walk(val) if x.op in ("attr", "smeth") and (x.op == "smeth" or x.args[0].op == "self")}
                    if own and not any(x.op in ("self", "attr") for x in have) and not bad:
                        bad = f"{name} is shared by all objects, but the value kept under {show(key, 4)[:80]} depends on this one"
            if bad or cls is None or root.op != "attr" or root.args[0] is not SELF:
                continue
            a = root.args[1]
            deps = state_in(w, cls, val) - {a}
            if key is not None:
                deps -= {x.args[1] for x in faithful_names(key) if x.op == "attr"}
            ch = changers(w, cls)
            lazy = lazily_built(w, cls)
            for b in sorted(deps):
                if b in lazy:
                    continue
                for g, v, s in ch.get(b, ()):
                    if g is f or g.key == f.key:
                        continue
                    if list(kept_values_of(w, g, s, b)):
                        continue
                    va = s.attrs.get((SELF, a))
                    if va is None:
                        bad = bad or f"{name} depends on self.{b}, but {g.key} replaces self.{b} without dropping {name}"
                    else:
                        for p, leaf in leaves_of(w.canon(va)):
                            if leaf is root and not still(w.canon(v), mk("attr", SELF, b), p):
                                bad = bad or f"{name} depends on self.{b}, but {g.key} replaces self.{b} and keeps {name} when " + \
                                    " and ".join(("" if x else "not ") + show(c, 5) for c, x in p)[:160]
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


def kept_values_of(w, g, s, b):
    """the method only fills self.b when it is missing"""
    v = w.canon(s.attrs[(SELF, b)])
    root = mk("attr", SELF, b)
    for p, leaf in leaves_of(v):
        if leaf is root and any(x is root for c, _ in p for x in walk(c)):
            yield leaf


def still(v, root, path):
    """under the path, v is the old value"""
    facts = dict(path)
    t = v
    while t.op == "ite":
        c = t.args[0]
        if c in facts:
            t = t.args[1] if facts[c] else t.args[2]
        else:
            return all(still(x, root, path) for x in t.args[1:])
    return t is root


def lazily_built(w, cls):
    """attributes that some method tests for None before using them"""
    out = set()
    for c in [x for x in w.U.mro(cls) if isinstance(x, Cls)]:
        for f in c.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.ops[0], ast.Is) and \
                        isinstance(n.test.left, ast.Attribute) and isinstance(n.test.comparators[0], ast.Constant) and n.test.comparators[0].value is None:
                    out.add(n.test.left.attr)
    return out


def decorated(w, f):
    for d in f.node.decorator_list:
        e = d.func if isinstance(d, ast.Call) else d
        nm = e.attr if isinstance(e, ast.Attribute) else getattr(e, "id", "")
        if nm in ("lru_cache", "cache", "cached_property", "cachedmethod") and f.cls is not None and f.kind in ("method", "property"):
            deps = self_reads(w, f.cls, f.name)
            hit = sorted(deps & set(changers(w, f.cls)))
            if hit:
                return f"@{nm} keeps the answer although it depends on self.{hit[0]}, which other methods replace"
    return None


def in_cone(rule):
    def go(prop):
        def run(w, thorough):
            r = rule(w, thorough)
            out = Result(r.name, r.statement)
            names = {c for c, _, _ in r.bad} | {c for c, _, _ in r.open} | set(r.instances)
            mine = set(cones.members(prop, names))
            out.instances = [c for c in r.instances if c in mine]
            out.bad = [b for b in r.bad if b[0] in mine]
            out.open = [b for b in r.open if b[0] in mine]
            out.ok = len(out.instances) - len(out.bad) - len(out.open)
            out.broken = r.broken
            return out
        return run
    return go


RULES = {}


def use(prop, fn):
    RULES[prop] = RULES.get(prop, ()) + (fn,)


use("C06", in_cone(caller_storage)("C06"))
for _p in ("C01", "C04", "C07", "C08", "C09", "C11", "C13", "C16", "C18", "C21", "C22", "C23", "C24", "C25"):
    use(_p, in_cone(kept)(_p))

ALL = ("caller_storage", "kept")
