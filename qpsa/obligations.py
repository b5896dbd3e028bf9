"""Further rules for single clauses: what a query hands on, what a result shares, what a guard compares, what a draw is given."""
import ast

from .clauses import memo
from .rules import SELF, Result, where, functions, summ, flat_events, leaves_of, literals, use, in_cone
from .terms import mk, cval, is_const, walk, show, children, NONE, TRUE, FALSE

BINDERS = {"many", "sumof", "any", "fold", "fill", "first", "last", "lam"}
PLAIN = {"numpy.asarray", "numpy.array", "numpy.atleast_1d", "float", "int", "tuple", "list"}
QUERIES = {"pdf", "logpdf", "cdf", "logcdf", "ppf", "sf", "logsf", "isf", "rvs", "stats", "median", "mean", "var", "std", "moment", "entropy", "interval",
           "histogramize", "expect", "support"}
PROPS = {"npdf", "shape", "ndim"}


def bare(t):
    """the value under conversions that keep it"""
    for _ in range(6):
        if t.op == "call" and t.args[0] in PLAIN and t.args[1]:
            t = t.args[1][0]
        else:
            break
    return t


def own_params(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg not in ("self", "cls")]


# ---------------------------------------------------------------- queries
def on_frozen(t):
    """the frozen distribution of the ensemble (or the distribution object behind it)"""
    return t.op == "attr" and t.args[1] in ("_frozen", "frozen") and t.args[0].op == "self"


@memo
def forwards(w):
    r = Result("query-forwards", "every query of an ensemble is answered by the frozen distribution's method of that name, given the caller's own arguments")
    for k, f in functions(w):
        if f.cls is None or f.cls.name != "Ensemble" or f.name not in QUERIES | PROPS:
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        params = own_params(f)
        bad = odd = None
        for path, leaf in leaves_of(w.canon(s.ret)):
            leaf = bare(leaf)
            if leaf.op == "raised":
                continue
            if f.name in PROPS:
                if not (leaf.op == "attr" and on_frozen(leaf.args[0]) and leaf.args[1] == f.name or leaf.op == f.name and on_frozen(leaf.args[0])):
                    bad = f"{f.name} is not the distribution's own: {show(leaf, 5)[:200]}"
                continue
            asked = [x for x in walk(leaf) if x.op == "meth" and on_frozen(x.args[1])]
            if not asked and not any(x.op == "param" for x in walk(leaf)) and any(x.op == "attr" and x.args[0] is SELF for x in walk(leaf)) and \
                    not any(x.op not in ("dim", "len", "size", "shape", "ndim") and any(q.op == "param" for q in children(x)) for c, _ in path for x in walk(c)):
                bad = f"{f.name} answers {show(leaf, 4)[:120]}, which was kept from some other question"
                continue
            if leaf.op == "meth" and on_frozen(leaf.args[1]) and leaf.args[0] == f.name:
                args = [bare(x) for x in leaf.args[2]] + [bare(v) for _, v in leaf.args[3]]
                names = {x.args[0] for x in args if x.op == "param"}
                if f.name == "rvs":
                    size = dict(leaf.args[3]).get("size") or (leaf.args[2][0] if leaf.args[2] else None)
                    if size is not None and size.op == "tuple" and len(size.args) == 2 and any(x.op == "attr" and x.args[1] in ("npdf", "_npdf") for x in walk(size.args[1])):
                        bad = f"rvs asks for samples the wrong way round: {show(size, 5)[:160]}"
                    names |= {p for x in args for y in walk(x) if y.op == "param" for p in [y.args[0]]}
                miss = [p for p in params if p not in names]
                if miss:
                    bad = f"{f.name} does not hand on {', '.join(miss)} as it was given: {show(leaf, 5)[:200]}"
            elif asked and not any(x.args[0] == f.name for x in asked):
                bad = f"{f.name} is answered by another method: {show(leaf, 5)[:200]}"
            elif asked and any(x.op in ("call", "mul", "add", "pow", "index") or x.op == "attr" and x.args[1] == "T" or x.op == "meth" and x.args[0] in ("transpose", "swapaxes") for x in walk(leaf) if any(y in asked for y in walk(x)) and x not in asked):
                bad = f"{f.name} changes the distribution's answer: {show(leaf, 5)[:200]}"
            else:
                odd = f"answered by {show(leaf, 4)[:160]}"
        if bad:
            r.fail(k, where(f), bad)
        elif odd:
            r.unknown(k, where(f), odd)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- results of their own
MAKERS = {"Ensemble.__getitem__", "Ensemble.convert_to", "Factory.create", "Factory.convert", "Factory.concatenate", "Factory.from_tables", "Factory.read"}


@memo
def own_result(w):
    r = Result("own-result", "slicing, converting, creating, concatenating and reading give an ensemble of their own: never the one they were given, nor one "
               "they keep")
    for k, f in functions(w):
        if k not in MAKERS:
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        bad = None
        for path, leaf in leaves_of(w.canon(s.ret)):
            x = leaf
            while x.op == "index" and x.args[0].op != "self" or x.op == "attr":
                x = x.args[0]
            if leaf.op == "self":
                bad = "returns the ensemble itself in place of a new one"
            elif x.op == "param" and leaf.op in ("param", "index"):
                bad = f"returns what it was given, {show(leaf, 4)}, in place of a new ensemble"
            elif leaf.op == "attr" and x.op in ("self", "clsself"):
                bad = f"returns the object it keeps as {show(leaf, 4)}"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- one row per PDF
def raise_conditions(t):
    """conditions under which a value is an error"""
    for path, leaf in leaves_of(t):
        if leaf.op == "raised":
            yield path


@memo
def rows(w):
    r = Result("row-count", "a table is accepted only when the first dimension of every column equals the number of PDFs")
    for k, f in functions(w):
        if f.name != "check_array_shapes":
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        params = own_params(f)
        if len(params) < 2:
            r.unknown(k, where(f), "takes no table and count")
            continue
        t = w.canon(s.ret)
        size = mk("param", params[1])
        eqs, bad = [], None
        conds = [c for p, leaf in leaves_of(t) if leaf.op == "raised" for c, _ in p] + \
                [c for c, e in flat_events(s) if any(x.op == "raised" for x in walk(e)) for c in c]
        for c in conds:
            for x in walk(w.canon(c)):
                if x.op == "eq" and size in x.args:
                    o = x.args[0] if x.args[1] is size else x.args[1]
                    eqs.append(o)
                elif x.op in ("lt", "le") and size in children(x):
                    bad = f"compares the number of rows by order, not equality: {show(x, 6)[:160]}"
                elif x.op in ("mod", "floordiv") and size in children(x):
                    bad = f"compares the number of rows up to a multiple: {show(x, 6)[:160]}"
                elif x.op == "in" and size is x.args[0]:
                    bad = f"accepts the number of PDFs anywhere in the shape: {show(x, 6)[:160]}"
        first = [o for o in eqs if o.op == "len" or (o.op == "index" and o.args[0].op == "shape" and is_const(o.args[1]) and cval(o.args[1]) == 0)]
        wrong = [o for o in eqs if o not in first and not is_const(o)]
        if not bad and wrong:
            bad = f"the number of PDFs is compared with {show(wrong[0], 6)[:160]}, not with the first dimension"
        if bad:
            r.fail(k, where(f), bad)
        elif not first:
            r.unknown(k, where(f), "no comparison with the first dimension found")
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- the caller's tables keep their entries
TAKES = {"pop", "popitem", "clear", "update", "setdefault", "append", "extend", "insert", "remove", "sort", "reverse", "fill", "resize", "put",
         "itemset", "setflags", "setfield", "byteswap"}


def param_root(t):
    """the parameter a table is (an entry of), following only parts that are shared, not copied"""
    for _ in range(10):
        if t.op == "param":
            return t
        if t.op in ("index", "key", "getdef"):
            t = t.args[0]
        elif t.op == "meth" and t.args[0] in ("get",):
            t = t.args[1]
        elif t.op == "expand":
            t = t.args[0]
        else:
            return None
    return None


def takes_in(w, s):
    """entries taken out of a table in the middle of an expression"""
    out = []
    for t in [s.ret] + list(s.attrs.values()) + [e for _, e in flat_events(s)]:
        for x in walk(w.canon(t)):
            if x.op == "meth" and x.args[0] in ("pop", "popitem", "setdefault") and x.args[1].op in ("param", "index", "key", "getdef") and \
                    (x.args[0] != "pop" or x.args[2]) and x not in out:
                out.append(x)
    return out


@memo
def entries(w):
    r = Result("caller-entries", "no function adds, removes or reorders entries of a table or list it was handed, or of a table held inside one "
               "(set_val_or_default and sparse_basis, documented to, apart)")
    from .rules import IN_PLACE
    for k, f in functions(w):
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        if k not in w.R.funcs:
            continue
        rs = summ(w, w.R.funcs[k], w.R)
        old = set()
        if rs is not None:
            for _, e in flat_events(rs):
                if e.op == "ev" and e.args[0].op == "meth" and e.args[0].args[0] in TAKES:
                    p = param_root(e.args[0].args[1])
                    if p is not None:
                        old.add((e.args[0].args[0], p))
        prm = set(own_params(f))
        bad = None
        done = [e.args[0] for _, e in flat_events(s) if e.op == "ev" and e.args[0].op == "meth" and e.args[0].args[0] in TAKES]
        done += [x for x in takes_in(w, s) if x not in done]
        if rs is not None:
            old |= {(x.args[0], param_root(x.args[1])) for x in takes_in(w, rs)}
        for x in done:
            p = param_root(x.args[1])
            if p is None or p.args[0] not in prm or p.args[0] in IN_PLACE.get(f.name, ()):
                continue
            if (x.args[0], p) in old or x.args[0] in ("update",) and x.args[1] is p and (not x.args[2] and not x.args[3]):
                continue
            if p.args[0] in stars(f) and x.args[1] is p:
                continue            # its own table of keyword arguments
            bad = f"changes the entries of its argument {p.args[0]}: {show(x, 5)[:160]}"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


def stars(f):
    a = f.node.args
    return {x.arg for x in (a.vararg, a.kwarg) if x is not None}


# ---------------------------------------------------------------- draws
REPLACES = {"numpy.sort", "numpy.unique", "numpy.clip", "sorted", "numpy.partition"}


@memo
def draws(w):
    r = Result("draws-as-drawn", "the samples a computation draws are all used, as drawn: none is dropped, thinned, reordered or replaced; the random state handed "
               "on is the caller's in every case")
    for k, f in functions(w):
        s = summ(w, f)
        if s is None:
            continue
        C = w.canon
        ts = [C(s.ret)] + [C(v) for v in s.attrs.values()] + [C(e) for _, e in flat_events(s)]
        seen = any(x.op == "meth" and x.args[0] == "rvs" for t in ts for x in walk(t))
        if not seen:
            continue
        old = set()
        rf = w.R.funcs.get(k)
        rs = summ(w, rf, w.R) if rf is not None else None
        if rs is not None:
            for t in [C(rs.ret)] + [C(v) for v in rs.attrs.values()] + [C(e) for _, e in flat_events(rs)]:
                old |= {x.args[0] for x in walk(t) if x.op == "call" and isinstance(x.args[0], str)}
        bad = None
        for t in ts:
            for x in walk(t):
                if x.op == "index" and drawn(x.args[0]) and thins(x.args[1]):
                    bad = f"part of the samples is left out: {show(x, 4)[:200]}"
                elif x.op == "call" and x.args[0] in REPLACES and x.args[0] not in old and any(drawn(c) for c in children(x)):
                    bad = f"the samples are rearranged before use: {show(x, 4)[:200]}"
                elif x.op == "meth" and x.args[0] == "rvs":
                    v = dict(x.args[3]).get("random_state")
                    if v is None and len(x.args[2]) > 1:
                        v = x.args[2][1]
                    if v is not None:
                        ways = [([], z) for z in v.args] if v.op == "or" else list(leaves_of(v))
                        if any(z.op == "param" for _, l in ways for z in walk(l)):
                            for path, leaf in ways:
                                if leaf is not NONE and not is_const(leaf) and not any(z.op == "param" for z in walk(leaf)) and not none_guard(path):
                                    bad = f"in some case the draw is given {show(leaf, 4)} in place of the caller's random state: {show(v, 5)[:160]}"
                        for path, leaf in leaves_of(v):
                            if leaf.op == "call" and str(leaf.args[0]).startswith("numpy.random.") and given(leaf) is not None and given(leaf).op != "param" and \
                                    not (given(leaf).op in ("attr", "getdef", "index") and not any(z.op in ARITHMETIC for z in walk(given(leaf)))):
                                bad = f"the random state is made from {show(given(leaf), 4)[:80]}, not from the caller's own"
                            if (leaf is NONE and path or is_const(leaf) and leaf is not NONE) and not none_guard(path):
                                bad = f"in some case the draw is given {show(leaf)} in place of the caller's random state: {show(v, 5)[:160]}"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


ARITHMETIC = {"add", "mul", "mod", "floordiv", "pow", "bitand", "bitor", "rshift", "lshift"}


def given(t):
    return t.args[1][0] if t.args[1] else next((v for n, v in t.args[2] if n in ("seed", "bit_generator")), None)


def none_guard(path):
    return any(x.op == "isnone" for c, _ in path for x in walk(c))


def drawn(t):
    for _ in range(8):
        if t.op == "meth" and t.args[0] == "rvs":
            return True
        if t.op == "call" and t.args[0] in ("numpy.squeeze", "numpy.asarray", "numpy.array", "numpy.sort", "numpy.ravel", "numpy.atleast_2d"):
            d = dict(t.args[2])
            t = t.args[1][0] if t.args[1] else d.get("a", d.get("object", NONE))
        elif t.op == "ite":
            return drawn(t.args[1]) or drawn(t.args[2])
        elif t.op == "index" and thins(t.args[1]):
            t = t.args[0]
        else:
            return False
    return False


def thins(k):
    for p in k.args if k.op == "tuple" else (k,):
        if p.op == "slice" and any(x is not NONE for x in p.args):
            return True
    return False


# ---------------------------------------------------------------- how much a digest holds
@memo
def weights(w):
    r = Result("digest-weight", "how many values a digest holds is its total weight, never how many centroids it keeps")
    for k, f in functions(w):
        s = summ(w, f)
        if s is None or f.cls is None:
            continue
        C = w.canon
        ts = [C(s.ret)] + [C(v) for v in s.attrs.values()] + [C(e) for _, e in flat_events(s)]
        uses = [x for t in ts for x in walk(t) if x.op == "meth" and x.args[0] == "get_centroids"]
        bad = None
        kept = mk("param", "centroids")
        if f.name in ("finalize", "compute_from_digest") and "centroids" in own_params(f):
            uses.append(kept)
            for t in ts:
                for x in walk(t):
                    if x.op == "meth" and x.args[0] in ("compute", "update") and x.args[2] and any(z is kept for z in walk(x.args[2][0])) and \
                            len(x.args[2]) < 2 and not any(n in ("w", "weights") for n, _ in x.args[3]) and "igest" in show(x.args[1], 4):
                        bad = f"a digest is made of the centroids' positions without their weights: {show(x, 4)[:140]}"
        if not uses:
            continue
        for t in ts:
            for x in walk(t):
                if x.op in ("len", "size") and x.args[0] in uses or x.op == "shape" and x.args[0] in uses:
                    if counts(t, x):
                        bad = f"the number of centroids is used as a number of values: {show(x, 4)}"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


def counts(t, x):
    """x takes part in arithmetic or is handed to a computation (not merely the length of a loop)"""
    for y in walk(t):
        if x not in children(y):
            continue
        if y.op not in BINDERS and not (y.op == "call" and y.args[0] in ("range", "enumerate")):
            return True
    return False


# ---------------------------------------------------------------- all, not some
MATCHES = {"numpy.allclose", "numpy.array_equal", "numpy.isclose", "numpy.array_equiv"}


def a_match(t):
    return t.op == "eq" or t.op == "call" and t.args[0] in MATCHES or t.op == "icall" and t.args[0].startswith("compare")


@memo
def universal(w):
    r = Result("all-compared", "tables are taken to match only when every table and every column matches: no comparison passes because some of them do")
    for k, f in functions(w):
        if not (f.name.startswith("compare") or f.name == "check_keys") or f.cls is not None:
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        bad = []
        seen = set()

        def go(t, pos):
            if (t, pos) in seen:
                return
            seen.add((t, pos))
            if t.op == "not":
                go(t.args[0], not pos)
            elif t.op in ("and", "or"):
                for x in t.args:
                    go(x, pos)
            elif t.op == "ite":
                c, a, b = t.args
                if a.op == "raised" or a == FALSE:
                    go(c, not pos)
                if b.op == "raised" or b == FALSE:
                    go(c, pos)
                if a == TRUE:
                    go(c, pos)
                if b == TRUE:
                    go(c, not pos)
                go(a, pos)
                go(b, pos)
            elif t.op == "any":
                body = t.args[2]
                if pos and positive(body):
                    bad.append(f"passes as soon as one matches: {show(t, 5)[:200]}")
            elif t.op == "call" and t.args[0] in ("any", "numpy.any") and pos and any(a_match(x) for x in walk(t)):
                bad.append(f"passes as soon as one matches: {show(t, 5)[:200]}")

        def positive(t, pos=True):
            if t.op == "not":
                return positive(t.args[0], not pos)
            if t.op in ("and", "or"):
                return any(positive(x, pos) for x in t.args)
            return pos and a_match(t)

        go(w.canon(s.ret), True)
        if bad:
            r.fail(k, where(f), bad[0])
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- every option reaches the conversion
@memo
def options(w):
    r = Result("options-handed-on", "a conversion hands every option but the method's name on to the extraction, and an unknown option is never dropped")
    for k, f in functions(w):
        if k not in ("Ensemble.convert_to", "Factory.convert", "Factory.create"):
            continue
        s = summ(w, f)
        kw = f.node.args.kwarg
        if s is None or kw is None:
            if s is None:
                r.unknown(k, where(f), "not analysable")
            continue
        own = mk("param", kw.arg)
        bad, seen = None, 0
        for x in walk(w.canon(s.ret)):
            if x.op != "call" or isinstance(x.args[0], str):
                continue
            for n, v in x.args[2]:
                if n != "**":
                    continue
                if not any(y is own for y in walk(v)):
                    continue
                seen += 1
                if v.op != "dict":
                    continue
                whole = False
                for e in v.args:
                    if e.op == "rest" and e.args[0] is own:
                        whole = True
                    elif e.op == "del" and is_const(e.args[0]) and cval(e.args[0]) != "method":
                        bad = f"the option {cval(e.args[0])!r} is left out"
                    elif e.op == "many":
                        for y in e.args[-1] if isinstance(e.args[-1], tuple) else (e.args[-1],):
                            if y.op == "g":
                                g = y.args[0]
                                if any(z.op in ("index", "getdef") and z.args[0] is own for z in walk(g)):
                                    bad = f"whether an option is handed on depends on its value: {show(g, 5)[:160]}"
                                elif [cval(z) for z in walk(g) if is_const(z) and z.args[0] == "str"] not in ([], ["method"]):
                                    bad = f"some options are left out: {show(g, 5)[:160]}"
                            elif y.op == "kv" and not any(z.op in ("index", "getdef") and z.args[0] is own for z in walk(y.args[1])):
                                bad = f"options are replaced: {show(y, 5)[:160]}"
        if bad:
            r.fail(k, where(f), bad)
        elif not seen:
            r.unknown(k, where(f), "no call that hands the options on was found")
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- reading keeps nothing
READS = {"Factory." + n for n in ("read", "read_metadata", "from_tables", "_build_data_dict", "is_qp_file", "data_length", "iterator", "write_dict", "read_dict",
                                  "convert", "create", "concatenate")} | {"Ensemble." + n for n in ("build_tables", "write_to", "metadata", "objdata")}


@memo
def unkept(w):
    r = Result("reads-keep-nothing", "reading, writing, creating and converting keep nothing between calls in the factory, the class, the module or the ensemble")
    for k, f in functions(w):
        if k not in READS:
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        bad = None
        for (base, name), v in s.attrs.items():
            if base.op in ("self", "clsself", "gref", "cref", "mref") and not (v.op == "attr" and v.args[1] == name):
                bad = f"keeps {show(base, 3)}.{name} = {show(w.canon(v), 4)[:120]}"
        for _, e in flat_events(s):
            if e.op == "mut":
                t = e.args[0]
                while t.op in ("attr", "index", "key"):
                    t = t.args[0]
                if t.op in ("self", "clsself", "gref", "cref", "mref"):
                    bad = f"writes into {show(e.args[0], 4)}"
            elif e.op == "ev" and e.args[0].op == "meth" and e.args[0].args[0] in TAKES:
                t = e.args[0].args[1]
                while t.op in ("attr", "index", "key", "getdef"):
                    t = t.args[0]
                if t.op in ("self", "clsself", "gref", "cref"):
                    bad = f"writes into {show(e.args[0].args[1], 4)}"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- the new number of PDFs counts
@memo
def counted_anew(w):
    r = Result("counted-anew", "where the distributions are replaced, the extra table is measured against the number of the new ones, never of those they replace")
    for k, f in functions(w):
        if f.cls is None or f.cls.name != "Ensemble":
            continue
        s = summ(w, f)
        if s is None:
            continue
        old = mk("attr", SELF, "_frozen")
        new = s.attrs.get((SELF, "_frozen"))
        if new is None or w.canon(new) is old:
            continue
        bad, seen = None, 0
        for _, e in flat_events(s):
            if e.op == "ev" and e.args[0].op == "icall" and e.args[0].args[0] == "check_array_shapes":
                n = dict(e.args[0].args[1]).get("npdf")
                seen += 1
                if n is not None and n.op in ("attr", "smeth", "index", "call") and (n.args[0] is old or n.op == "smeth" and n.args[0] == "npdf"):
                    bad = f"the table is measured against the PDFs that are being replaced: {show(n, 4)[:120]}"
        if bad:
            r.fail(k, where(f), bad)
        elif seen:
            r.good(k)
    return r


# ---------------------------------------------------------------- the method asked for
@memo
def asked(w):
    r = Result("method-asked-for", "a conversion or creation looks its functions up under the method the caller named; no other method is tried in its place")
    for k, f in functions(w):
        if k not in ("Ensemble.convert_to", "Factory.convert", "Factory.create", "Pdf_gen.create"):
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        bad, seen = None, 0
        terms = [w.canon(s.ret)] + [w.canon(e) for _, e in flat_events(s)]
        for t in terms:
            for z in walk(t):
                if z.op in ("meth", "smeth", "icall") and z.args[0] in ("extraction_method", "creation_method", "Pdf_gen.extraction_method", "Pdf_gen.creation_method"):
                    a = z.args[2][0] if z.op == "meth" and z.args[2] else next((v for n, v in z.args[1] if n == "method"), None) if z.op != "meth" else None
                    if a is None:
                        continue
                    seen += 1
                    if is_const(a):
                        bad = f"the function for {show(a, 2)} is looked up, whatever the method asked for"
                    elif a.op in ("ite", "or", "and"):
                        for _, leaf in leaves_of(a):
                            if leaf is not NONE and not any(is_const(q) and cval(q) == "method" or q.op == "param" and q.args[0] == "method" for q in walk(leaf)):
                                bad = f"in some case the function for {show(leaf, 3)[:100]} is looked up, not the method asked for"
        if bad:
            r.fail(k, where(f), bad)
        elif seen:
            r.good(k)
    return r


# ---------------------------------------------------------------- what is written is what is held
WRITERS = {"Ensemble." + n for n in ("build_tables", "write_to", "writeHdf5Chunk", "finalizeHdf5Write")} | {"Factory.write_dict"}
SAME_VALUES = {"numpy.asarray", "numpy.array", "numpy.copy", "numpy.ascontiguousarray", "numpy.asanyarray"}
OTHER_VALUES = {"astype", "reshape", "squeeze", "ravel", "flatten", "round", "transpose", "swapaxes", "clip", "sort", "decode", "encode", "cumsum", "take", "repeat"}


@memo
def as_held(w):
    r = Result("written-as-held", "the tables handed to the writers are those the ensemble hands out, without any calculation, conversion or reshaping on the way")
    for k, f in functions(w):
        if k not in WRITERS:
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        given = [w.canon(s.ret)] if f.name == "build_tables" else []
        for _, e in flat_events(s):
            if e.op == "ev" and e.args[0].op == "call" and str(e.args[0].args[0]).startswith("tables_io."):
                c = w.canon(e.args[0])
                given += list(c.args[1]) + [v for _, v in c.args[2]]
        bad = None
        for t in given:
            for z in walk(t):
                n = z.args[0] if z.op in ("call", "meth") else None
                if z.op == "call" and isinstance(n, str) and n.startswith("numpy.") and (n not in SAME_VALUES or any(q == "dtype" for q, _ in z.args[2])) or \
                        z.op == "meth" and n in OTHER_VALUES:
                    bad = f"a table is changed on the way to the file: {show(z, 4)[:160]}"
            if t.op != "param" and any(z.op == "param" and z.args[0] in ("start", "end") for z in walk(t)) and {"start", "end"} <= set(own_params(f)):
                bad = bad or f"the rows written are not those asked for: {show(t, 4)[:120]}"
        if bad:
            r.fail(k, where(f), bad)
        elif not given:
            r.unknown(k, where(f), "no call that writes was found")
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- names are looked up as they are
@memo
def exact(w):
    r = Result("exact-name", "a metric or parameterisation is looked up under the name asked for, as it is; another spelling is refused, not guessed")
    for k, f in functions(w):
        if k not in ("MetricFactory.create_metric", "Factory.create", "Factory.convert"):
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        bad, seen = None, 0
        p = mk("param", own_params(f)[0])
        params = {mk("param", x) for x in own_params(f)}
        for x in walk(w.canon(s.ret)):
            if x.op in ("index", "getdef") and (x.args[0].op == "self" or x.args[0].op == "attr" and x.args[0].args[0].op in ("clsself", "self", "cref")):
                key = x.args[1]
                if not any(y in params for y in walk(key)):
                    continue
                seen += 1
                if key not in params:
                    bad = f"looks up {show(key, 6)[:160]}, not the name asked for"
                if x.op == "getdef" and x.args[2] is not NONE:
                    bad = f"gives {show(x.args[2], 4)[:100]} for an unknown name"
        if bad:
            r.fail(k, where(f), bad)
        elif not seen:
            r.unknown(k, where(f), "no look-up by name found")
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- moments
WIDTHS = {"numpy.gradient", "numpy.diff", "numpy.ediff1d", "numpy.trapz", "scipy.integrate.trapezoid", "scipy.integrate.simpson"}
KNOWN = {"attr", "self", "param", "const", "index", "slice", "tuple", "add", "mul", "pow", "size", "len", "shape", "ndim", "ite", "isnone", "enum"}


def has_width(w, f, t, depth=0):
    for x in walk(t):
        if x.op == "call" and x.args[0] in WIDTHS or x.op == "icall" and x.args[0] in ("bin_widths",):
            return True
        if x.op == "add" and len(x.args) == 2 and sliced_difference(x):
            return True
        if x.op == "attr" and x.args[0].op == "self" and depth < 2 and f.cls is not None:
            init = w.U.find_method(f.cls, "__init__")
            s = summ(w, init) if init is not None else None
            v = s.attrs.get((x.args[0], x.args[1])) if s is not None else None
            for v in alternatives(w.canon(v)) if v is not None else ():
                if (v.op == "add" or v.op == "icall" or v.op == "call" and v.args[0] in WIDTHS) and has_width(w, f, v, depth + 1):
                    return True
    return False


def alternatives(t):
    return alternatives(t.args[1]) + alternatives(t.args[2]) if t.op == "ite" else [t]


def sliced_difference(t):
    a, b = t.args
    neg = lambda x: x.args[1] if x.op == "mul" and len(x.args) == 2 and is_const(x.args[0]) and cval(x.args[0]) == -1 else None
    for x, y in ((a, neg(b)), (b, neg(a))):
        if y is not None and x.op == "index" and y.op == "index" and x.args[0] is y.args[0] and \
                any(p.op == "slice" for p in walk(x.args[1])) and any(p.op == "slice" for p in walk(y.args[1])):
            return True
    return False


@memo
def cells(w):
    r = Result("own-cell", "in a moment over a grid or over bins every point is weighted by the width of its own cell")
    for k, f in functions(w):
        if f.name not in ("custom_generic_moment", "_munp") or f.cls is None:
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        t = w.canon(s.ret)
        order = [mk("param", p) for p in own_params(f)[:1]]
        sums = [x for x in walk(t) if x.op == "call" and x.args[0] in ("numpy.sum", "numpy.dot", "numpy.einsum", "numpy.mean", "numpy.average", "numpy.matmul")
                or x.op in ("fold", "sumof") or x.op == "call" and x.args[0] in WIDTHS]
        sums = [x for x in sums if any(y.op == "pow" and y.args[1] in order for y in walk(x))]
        if not sums:
            continue
        x = max(sums, key=lambda y: sum(1 for _ in walk(y)))
        if has_width(w, f, t):
            r.good(k)
        elif all(y.op in KNOWN or y.op in ("call",) and isinstance(y.args[0], str) or y.op == "icall" for y in walk(t)):
            r.fail(k, where(f), f"no point is weighted by its own cell: {show(t, 6)[:200]}")
        else:
            r.unknown(k, where(f), f"no cell width found: {show(t, 5)[:160]}")
    return r


# ---------------------------------------------------------------- predicates over a finite set
def truth(w, uni, cls, t, member, depth=0):
    """value of a predicate for one member of its enumeration, or None"""
    o, a = t.op, t.args
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if o == "not":
        v = truth(w, uni, cls, a[0], member, depth)
        return None if v is None else not v
    if o in ("and", "or"):
        vs = [truth(w, uni, cls, x, member, depth) for x in a]
        stop = o == "or"
        if any(v is stop for v in vs):
            return stop
        return None if any(v is None for v in vs) else not stop
    if o == "ite":
        c = truth(w, uni, cls, a[0], member, depth)
        return None if c is None else truth(w, uni, cls, a[1 if c else 2], member, depth)
    if o == "eq" or o == "is":
        x, y = (which(z, member) for z in a[:2])
        return None if x is None or y is None else x == y
    if o == "in":
        x = which(a[0], member)
        if x is not None and is_const(a[1]) and isinstance(cval(a[1]), str) or a[1].op == "attr" and is_const(a[0]) and isinstance(cval(a[0]), str):
            x = cval(a[0]) if is_const(a[0]) else x
            y = cval(a[1]) if is_const(a[1]) else which(a[1], member)
            return None if y is None else x in y
        items = [which(y.args[0] if y.op == "el" else y, member) for y in a[1].args] if a[1].op in ("tuple", "list", "set") else [None]
        return None if x is None or any(y is None for y in items) else x in items
    if o == "meth" and a[0] in ("startswith", "endswith") and a[2]:
        x = which(a[1], member)
        ps = a[2][0].args if a[2][0].op == "tuple" else (a[2][0],)
        if x is None or not all(is_const(p) and isinstance(cval(p), str) for p in ps):
            return None
        return any(getattr(x, a[0])(cval(p)) for p in ps)
    if o in ("smeth", "meth") and depth < 4:
        f = uni.find_method(cls, a[0])
        if f is not None and (o == "smeth" or a[1].op == "self"):
            s = w.summary(uni, f, cls)
            if not isinstance(s, Exception):
                return truth(w, uni, cls, w.canon(s.ret), member, depth + 1)
    return None


def which(t, member):
    if t.op == "self":
        return member
    if t.op == "attr" and t.args[1] in ("value", "name") and t.args[0].op in ("self", "enum"):
        return which(t.args[0], member)
    if t.op == "enum":
        return str(t.args[1])
    return None


@memo
def tables_of_truth(w):
    r = Result("truth-table", "each yes/no question about a metric's declared input type has, for every member of the type, the answer of its definition (decided by "
               "case analysis over the members)")
    for k, rf in sorted(w.R.funcs.items()):
        if rf.cls is None or not rf.cls.name.endswith("InputType") or not rf.name.startswith("uses_"):
            continue
        uc = w.U.classes.get(rf.cls.name)
        f = w.U.find_method(uc, rf.name) if uc is not None else None
        if f is None or getattr(f, "node", None) is None:
            r.unknown(k, where(rf), "no longer there")
            continue
        a, b = w.summary(w.R, rf, rf.cls), w.summary(w.U, f, uc)
        if isinstance(a, Exception) or isinstance(b, Exception):
            r.unknown(k, where(f), "not analysable")
            continue
        members = [t.id for n in rf.cls.node.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)]
        bad = odd = None
        for m in members:
            x, y = truth(w, w.R, rf.cls, w.canon(a.ret), m), truth(w, w.U, uc, w.canon(b.ret), m)
            if x is None or y is None:
                odd = f"cannot be decided for {m}"
            elif x != y:
                bad = f"answers {y} for {m} where its definition answers {x}"
        if bad:
            r.fail(k, where(f), bad)
        elif odd:
            r.unknown(k, where(f), odd)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- switching the reconstruction
@memo
def rebuilt(w):
    r = Result("reconstruction-rebuilt", "choosing a reconstruction by name rebuilds it: the earlier one stays only where the name is the current one or is refused")
    for k, f in functions(w):
        if not k.endswith("pdf_constructor_name.setter"):
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        t = next((w.canon(v) for (b, n), v in s.attrs.items() if n == "_pdf_constructor"), None)
        params = own_params(f)
        if t is None or not params:
            r.fail(k, where(f), "the reconstruction is never rebuilt")
            continue
        value = mk("param", params[0])
        bad = None
        for path, leaf in leaves_of(t):
            if leaf.op == "attr" and leaf.args[1] == "_pdf_constructor":
                facts = [(c, v) for c, v in literals(path)]
                same = any(v and c.op in ("eq", "is") and value in c.args and any(x.op == "attr" and "constructor_name" in x.args[1] for x in c.args) for c, v in facts)
                refused = any(not v and c.op == "in" and c.args[0] is value for c, v in facts) or any(c.op == "exc" for c, v in facts) or any(
                    v and c.op == "isnone" and any(x is value for x in walk(c)) for c, v in facts)
                if not same and not refused:
                    bad = "keeps the earlier reconstruction under the new name when " + (" and ".join(("" if v else "not ") + show(c, 4)[:80] for c, v in facts) or "always")
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- space for a file
def measures(t):
    """keyword argument -> which of its dimensions are used"""
    out = {}
    for x in walk(t):
        kind, v = None, None
        if x.op == "len":
            kind, v = "first", x.args[0]
        elif x.op == "index" and x.args[0].op == "shape" and is_const(x.args[1]):
            kind, v = {0: "first", -1: "last"}.get(cval(x.args[1])), x.args[0].args[0]
        elif x.op == "size":
            kind, v = "all", x.args[0]
        if kind is None:
            continue
        if v.op == "call" and v.args[0] in ("numpy.ravel", "numpy.squeeze"):
            kind = "all"
            v = next((y for n, y in v.args[2] if n == "a"), v)
        while v.op == "call" and v.args[0] in ("numpy.asarray", "numpy.array", "numpy.atleast_1d"):
            v = v.args[1][0] if v.args[1] else next(y for _, y in v.args[2])
        if v.op in ("index", "key", "getdef") and is_const(v.args[1]) and isinstance(cval(v.args[1]), str):
            out.setdefault(cval(v.args[1]), set()).add(kind)
    return out


@memo
def allocation(w):
    r = Result("allocation", "space is set aside for every column of every table but the settings, with the column's own type and shape, the number of rows aside")
    for k, f in functions(w):
        if f.name == "get_allocation_kwds" and k in w.R.funcs:
            s, rs = summ(w, f), summ(w, w.R.funcs[k], w.R)
            if s is None or rs is None:
                r.unknown(k, where(f), "not analysable")
                continue
            t, rt = w.canon(s.ret), w.canon(rs.ret)
            columns = {cval(x.args[0]) for x in walk(t) if x.op == "kv" and is_const(x.args[0])}
            got, want = measures(t), measures(rt)
            bad = None
            for name, kinds in sorted(got.items()):
                if "first" in kinds and (name in columns or "all" in want.get(name, ())) and "first" not in want.get(name, ()):
                    bad = f"the width of a row is taken from the number of rows of {name}"
            if bad:
                r.fail(k, where(f), bad)
            else:
                r.good(k)
            continue
        if k != "Ensemble._get_allocation_kwds":
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        t = w.canon(s.ret)
        npdf = mk("param", own_params(f)[0]) if own_params(f) else None
        bad = None
        kinds, lens = False, False
        for x in walk(t):
            if x.op == "attr" and x.args[1] == "dtype":
                kinds = True
            if x.op == "attr" and x.args[1] in ("kind", "itemsize", "char"):
                bad = f"the type of a column is worked out from its kind: {show(x, 4)[:120]}"
            if x.op == "call" and x.args[0] in ("numpy.result_type", "numpy.promote_types", "numpy.dtype", "numpy.min_scalar_type", "numpy.find_common_type"):
                bad = f"the type of a column is changed: {x.args[0]}"
            if x.op == "lt" and npdf is not None and npdf in walk(x):
                bad = f"columns are left out by the number of rows: {show(x, 4)[:120]}"
        if not kinds and not bad and not any(x.op == "call" and "dtype" in str(x.args[0]) for x in walk(t)):
            r.unknown(k, where(f), "no column type is handed on")
        elif bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- registered methods
@memo
def lookup(w):
    r = Result("lookup", "a registered method is found under its own key, and only the default entry stands in for a missing one")
    for k, f in functions(w):
        if f.name != "get_val_or_default" or f.cls is not None:
            continue
        s = summ(w, f)
        params = own_params(f)
        if s is None or len(params) < 2:
            r.unknown(k, where(f), "not analysable")
            continue
        table, key = (mk("param", p) for p in params[:2])
        bad = None
        for path, leaf in leaves_of(w.canon(s.ret)):
            for x in walk(leaf):
                if x.op in ("index", "key") and x.args[0] is table and len(x.args) > 1 and x.args[1] not in (key, NONE):
                    bad = f"answers with another entry: {show(x, 4)[:120]}"
                if x.op == "call" and x.args[0] in ("next", "min", "max", "sorted", "list") or x.op == "meth" and x.args[1] is table and x.args[0] in ("values", "popitem"):
                    bad = f"answers with whichever entry comes first: {show(leaf, 4)[:120]}"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- extra tables of several ensembles
def of_all(p):
    """the number of ensembles, or of something each of them has"""
    for x in (p,):
        if x.op in ("len", "size") and (x.args[0].op == "param" or x.args[0].op == "list" and not any(
                y.op == "g" for m in x.args[0].args if m.op == "many" for y in (m.args[-1] if isinstance(m.args[-1], tuple) else ()))):
            return True
        if x.op == "sumof":
            return True
    return False


@memo
def all_or_none(w):
    r = Result("extra-table-whole", "the extra table of a concatenation is put together from every ensemble, or there is none")
    for k, f in functions(w):
        if k != "Factory.concatenate":
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        bad = None
        for path, leaf in leaves_of(w.canon(s.ret)):
            for x in walk(leaf):
                if x.op != "icall" or x.args[0] != "concatenate_dicts":
                    continue
                for y in walk(x):
                    if y.op == "g" and any(z.op == "isnone" and any(q.op == "attr" and "ancil" in q.args[1] for q in walk(z)) for z in walk(y.args[0])):
                        # the number of tables must be compared with the number of ensembles somewhere
                        if not any(z.op == "eq" and sum(any(q.op in ("len", "size", "sumof") for q in walk(p)) for p in z.args) == 2 and any(of_all(p) for p in z.args) or z.op == "any" and any(
                                q.op == "isnone" for q in walk(z)) for z in walk(w.canon(s.ret))):
                            bad = "ensembles without an extra table are left out of it: its rows no longer belong to the PDFs"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- the sparse basis
def power_of_two(t):
    """exponent of a constant power of two"""
    if is_const(t) and t.args[0] == "int":
        v = cval(t)
        if v > 1 and v & (v - 1) == 0:
            return v.bit_length() - 1
    return None


def ones(t):
    """number of low bits a constant mask keeps"""
    if is_const(t) and t.args[0] == "int":
        v = cval(t)
        if v > 0 and v & (v + 1) == 0:
            return v.bit_length()
    return None


def widths(t):
    """bit positions a term cuts or joins an integer at"""
    out = set()
    for x in walk(t):
        o, a = x.op, x.args
        if o in ("lshift", "rshift") and is_const(a[1]):
            out.add(cval(a[1]))
        elif o == "bitand":
            for y in a:
                n = ones(y)
                if n is not None and n > 1:
                    out.add(n)
        elif o in ("mod", "floordiv"):
            n = power_of_two(a[1])
            if n is not None:
                out.add(n)
        elif o == "mul":
            for y in a:
                n = power_of_two(y) if isinstance(y, type(t)) else None
                if n is not None and n > 1:
                    out.add(n)
        elif o == "call" and a[0] == "divmod":
            for y in a[1]:
                n = power_of_two(y)
                if n is not None:
                    out.add(n)
    return out


@memo
def bitfields(w):
    r = Result("bit-fields", "the two numbers packed into one integer are joined and separated at the same bit")
    pair = [w.U.funcs.get(k) for k in ("combine_int", "get_N")]
    if any(f is None for f in pair):
        return r
    got = {}
    for f in pair:
        s = summ(w, f)
        got[f.key] = widths(w.canon(s.ret)) if s is not None else set()
    a, b = got["combine_int"], got["get_N"]
    f = pair[0]
    if not a or not b:
        r.unknown("combine_int", where(f), "no bit position recognised")
    elif len(a) > 1 or len(b) > 1 or a != b:
        r.fail("combine_int", where(f), f"packs at bit {sorted(a)} and unpacks at bit {sorted(b)}")
    else:
        r.good("combine_int")
    return r


@memo
def nesting(w):
    r = Result("basis-order", "the basis functions are laid out in the order in which their indices are taken apart: position slowest, then width, then shape")
    for k, f in functions(w):
        if f.name != "create_voigt_basis" or f.cls is not None:
            continue
        order = {p: i for i, p in enumerate(p for p in own_params(f) if p in ("Nmu", "Nsigma", "Nv"))}
        best = []
        def dive(body, seen):
            nonlocal best
            for st in body:
                if isinstance(st, ast.For):
                    here = [n.id for n in ast.walk(st.iter) if isinstance(n, ast.Name) and n.id in order]
                    dive(st.body, seen + here)
                    if len(seen + here) > len(best):
                        best = seen + here
                elif isinstance(st, (ast.If, ast.With)):
                    dive(st.body, seen)
        dive(f.node.body, [])
        if sorted(best) != sorted(order):
            r.unknown(k, where(f), "the loops over the three grids were not recognised")
        elif best != sorted(best, key=order.get):
            r.fail(k, where(f), f"loops over {', '.join(best)}: basis function numbers no longer decode to the shapes they stand for")
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- what is read, joined or cut out of tables are their own entries
CARRIERS = {"Factory._build_data_dict", "concatenate_dicts", "slice_dict"}
WRAPS = {"numpy.atleast_1d", "numpy.atleast_2d", "numpy.atleast_3d", "numpy.ravel", "numpy.squeeze", "numpy.transpose"}
REWORKS = OTHER_VALUES - {"reshape", "squeeze", "ravel", "flatten", "decode"} | {"lower", "upper", "strip", "lstrip", "rstrip", "replace", "title"}
CONVERTS = {"float", "int", "bool", "complex", "str", "repr", "abs", "round", "sorted", "set", "max", "min", "sum"}


def reworked(t, known):
    """the first operation in this term which makes other values of those it is given, and which the accepted definition does not use"""
    for z in walk(t):
        n = z.args[0] if z.op in ("call", "meth") else None
        if z.op == "call" and isinstance(n, str) and (n in CONVERTS or n.startswith("numpy.") and n not in SAME_VALUES and n not in RESHAPES) and n not in known:
            return z
        if z.op == "call" and isinstance(n, str) and any(q == "dtype" and v is not NONE for q, v in z.args[2]):
            return z
        if z.op == "meth" and n in REWORKS and n not in known:
            return z
    return None


RESHAPES = WRAPS | {"numpy.reshape", "numpy.expand_dims", "numpy.ndim", "numpy.shape", "numpy.size", "numpy.concatenate", "numpy.vstack", "numpy.hstack",
                    "numpy.append", "numpy.stack", "numpy.take", "numpy.iterable", "numpy.isscalar"}


@memo
def entries_as_they_are(w):
    r = Result("entries-as-they-are", "the entries of tables which are read, joined or cut out come out as they are: at most their shape is changed, never a value or a "
               "type, and the pieces which are joined are joined in the shape they have")
    for k, f in functions(w):
        if k not in CARRIERS:
            continue
        s = summ(w, f)
        rf = w.R.funcs.get(k)
        rs = summ(w, rf, w.R) if rf is not None else None
        if s is None or rs is None:
            r.unknown(k, where(f), "not analysable")
            continue
        t, rt = w.canon(s.ret), w.canon(rs.ret)
        known = {z.args[0] for z in walk(rt) if z.op in ("call", "meth") and isinstance(z.args[0], str)}
        z = reworked(t, known)
        if z is None:
            for c in walk(t):
                if c.op == "call" and c.args[0] == "numpy.concatenate" and c.args[2]:
                    for v in [v for q, v in c.args[2] if q == "arrays"] + list(c.args[1][:1]):
                        z = z or next((y for y in walk(v) if y.op == "call" and y.args[0] in WRAPS or y.op == "expand"), None)
        if z is not None:
            r.fail(k, where(f), f"the entries are changed: {show(z, 4)[:160]}")
        else:
            r.good(k)
    return r


use("C05", in_cone(counted_anew)("C05"))
for _p in ("C02", "C03", "C13", "C14"):
    use(_p, in_cone(entries_as_they_are)(_p))
use("C12", in_cone(asked)("C12"))
use("C13", in_cone(as_held)("C13"))
use("C15", in_cone(as_held)("C15"))
use("C25", in_cone(bitfields)("C25"))
use("C25", in_cone(nesting)("C25"))
use("C19", in_cone(tables_of_truth)("C19"))
for _p in ("C07", "C22"):
    use(_p, in_cone(rebuilt)(_p))
use("C15", in_cone(allocation)("C15"))
use("C12", in_cone(lookup)("C12"))
use("C03", in_cone(all_or_none)("C03"))
use("C24", in_cone(forwards)("C24"))
for _p in ("C02", "C03", "C12", "C13"):
    use(_p, in_cone(own_result)(_p))
use("C05", in_cone(rows)("C05"))
use("C06", in_cone(entries)("C06"))
use("C16", in_cone(draws)("C16"))
use("C17", in_cone(weights)("C17"))
use("C03", in_cone(universal)("C03"))
use("C13", in_cone(universal)("C13"))
use("C12", in_cone(options)("C12"))
use("C13", in_cone(unkept)("C13"))
use("C19", in_cone(exact)("C19"))
use("C12", in_cone(exact)("C12"))
use("C23", in_cone(cells)("C23"))

ALL = ("forwards", "as_held", "entries_as_they_are", "counted_anew", "asked", "own_result", "rows", "entries", "draws", "weights", "universal", "options", "unkept", "exact", "cells", "tables_of_truth", "rebuilt", "allocation", "lookup",
       "all_or_none", "bitfields", "nesting")
