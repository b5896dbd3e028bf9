"""Rules about what must not go missing on the way: settings, columns, checks, rows, integrals."""
import ast

from .clauses import memo
from .obligations import own_params
from .rules import SELF, Result, where, functions, summ, flat_events, leaves_of, literals, use, in_cone
from .terms import T, mk, const, cval, is_const, walk, show, children, rebuild, NONE, TRUE, FALSE

HOUSE = {"pdf_name", "pdf_version"}


def every_term(w, s):
    C = w.canon
    return [C(s.ret)] + [C(v) for v in s.attrs.values()] + [C(mk("g", mk("and", *c), e)) if len(c) > 1 else C(mk("g", c[0], e)) if c else C(e) for c, e in flat_events(s)]


# ---------------------------------------------------------------- settings in transit
def setting_names(w):
    out = set()
    for uni in (w.U, w.R):
        for f in uni.funcs.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "_addmetadata" and n.args and isinstance(n.args[0], ast.Constant):
                    out.add(n.args[0].value)
    return sorted(x for x in out - HOUSE if isinstance(x, str))


def holds(c, key, name):
    """truth of a condition on an entry's key for one name, or None"""
    o, a = c.op, c.args
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if o == "not":
        v = holds(a[0], key, name)
        return None if v is None else not v
    if o in ("and", "or"):
        vs = [holds(x, key, name) for x in a]
        stop = o == "or"
        if any(v is stop for v in vs):
            return stop
        return None if any(v is None for v in vs) else not stop
    if o == "ite":
        v = holds(a[0], key, name)
        return None if v is None else holds(a[1 if v else 2], key, name)

    def text(t):
        if t is key:
            return name
        if is_const(t) and isinstance(cval(t), str):
            return cval(t)
        if t.op == "meth" and t.args[0] in ("lower", "upper", "strip", "casefold") and not t.args[2]:
            x = text(t.args[1])
            return None if x is None else getattr(x, t.args[0])()
        if t.op == "index" and t.args[1].op == "slice" and all(is_const(z) for z in t.args[1].args):
            x = text(t.args[0])
            return None if x is None else x[slice(*[None if z is NONE else cval(z) for z in t.args[1].args])]
        return None

    if o in ("eq", "is"):
        x, y = text(a[0]), text(a[1])
        return None if x is None or y is None else x == y
    if o == "in":
        x = text(a[0])
        if x is None:
            return None
        if a[1].op in ("tuple", "list", "set"):
            items = [text(y.args[0] if y.op == "el" else y) for y in a[1].args]
            return None if any(y is None for y in items) else x in items
        y = text(a[1])
        return None if y is None else x in y
    if o == "meth" and a[0] in ("startswith", "endswith") and a[2]:
        x = text(a[1])
        p = a[2][0]
        ps = [text(y) for y in p.args] if p.op == "tuple" else [text(p)]
        if x is None or any(y is None for y in ps):
            return None
        return any(getattr(x, a[0])(y) for y in ps)
    return None


def guarded(t):
    """(guard or None, key, source table or None, value) of the entries of a table, or of the assignments that fill one"""
    for x in walk(t):
        if x.op not in ("many", "fill"):
            continue
        for y in x.args[-1] if x.op == "many" and isinstance(x.args[-1], tuple) else x.args[2:3] if x.op == "fill" else ():
            ys = y if isinstance(y, tuple) else (y,)
            for e in ys:
                g = None
                while isinstance(e, T) and e.op == "g" and len(e.args) == 2:
                    g = e.args[0] if g is None else mk("and", g, e.args[0])
                    e = e.args[1]
                if not isinstance(e, T):
                    continue
                if e.op == "kv":
                    key, val = e.args[0], e.args[1]
                elif e.op == "set":
                    key, val = e.args[0], e.args[1]
                else:
                    continue
                # the names were listed first, under a condition
                if g is None and key.op == "index" and key.args[0].op == "list" and len(key.args[0].args) == 1 and key.args[0].args[0].op == "many":
                    m = key.args[0].args[0]
                    h = m.args[-1][0] if isinstance(m.args[-1], tuple) and len(m.args[-1]) == 1 else None
                    if h is not None and h.op == "g":
                        g, key = h.args[0], h.args[1].args[0] if h.args[1].op == "el" else h.args[1]
                yield x, g, key, val


def entry_name(key):
    """the name of an entry met while going through a table"""
    return key.op == "key" or key.op == "index" and key.args[1].op in ("bv", "tmpv")


def about_settings(t):
    return any(x.op in ("smeth", "meth") and x.args[0] == "metadata" or x.op == "attr" and x.args[1] in ("metadata", "_metadata") for x in walk(t))


CARRIERS = {"Ensemble.__getitem__", "Ensemble.update_objdata", "Ensemble.append", "Factory.concatenate", "Ensemble.update", "Ensemble.build_tables", "Ensemble.metadata", "Pdf_gen.metadata"}


@memo
def settings_carried(w):
    r = Result("settings-carried", "slicing, updating, appending and concatenating hand every setting of the ensemble on: the condition on an entry's name is decided for "
               "every name the constructors store")
    names = setting_names(w)
    for k, f in functions(w):
        if k not in CARRIERS:
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        bad = odd = None
        for t in every_term(w, s):
            for x, g, key, val in guarded(t):
                if g is None or key.op != "key" or not about_settings(key.args[0]):
                    continue
                for n in names:
                    v = holds(g, key, n)
                    if v is False:
                        bad = bad or f"the setting {n} is left out: {show(g, 5)[:120]}"
                    elif v is None:
                        odd = odd or f"cannot tell whether the setting {n} is handed on: {show(g, 5)[:120]}"
            for x in walk(t):
                if x.op == "dict" and any(y.op == "rest" and about_settings(y.args[0]) for y in x.args):
                    for y in x.args:
                        if y.op == "del" and is_const(y.args[0]) and cval(y.args[0]) in names:
                            bad = bad or f"the setting {cval(y.args[0])} is left out"
        if bad:
            r.fail(k, where(f), bad)
        elif odd:
            r.unknown(k, where(f), odd)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- columns in transit
MOVERS = CARRIERS | {"Ensemble.add_to_ancil", "Ensemble.set_ancil", "Ensemble._update_frozen", "Ensemble.objdata", "Ensemble.__init__", "Factory.from_tables", "Factory.read", "Factory.iterator", "Factory.read_dict",
                     "slice_dict", "concatenate_dicts", "Ensemble.writeHdf5Chunk", "Ensemble.write_to", "Pdf_gen.objdata", "check_array_shapes"}
GROUPS = HOUSE | {"meta", "data", "ancil", "row"}


def only_names(c, key):
    """the condition compares nothing but the entry's own name with constants"""
    rest = rebuild_without(c, key)
    return all(x.op in ("not", "and", "or", "eq", "in", "tuple", "list", "set", "el", "const", "meth", "name") for x in walk(rest))


def rebuild_without(t, key):
    if t is key:
        return mk("name")
    return rebuild(t, lambda x: rebuild_without(x, key))


@memo
def columns_whole(w):
    r = Result("columns-whole", "where a table is handed on, put together, written or checked column by column, no column is left out for what it holds")
    for k, f in functions(w):
        if k not in MOVERS or k not in w.R.funcs:
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        rs = summ(w, w.R.funcs[k], w.R)
        known = set()
        if rs is not None:
            for t in every_term(w, rs):
                known |= {g for _, g, _, _ in guarded(t) if g is not None}
        bad = odd = None
        for t in every_term(w, s):
            found = list(guarded(t))
            for x, g, key, val in found:
                if g is None or g in known or not entry_name(key):
                    continue
                if not any(y is key or y.op in ("index", "getdef") and len(y.args) > 1 and y.args[1] is key for y in walk(g)):
                    continue        # decided for the table as a whole
                if only_names(g, key):
                    cs = {cval(y) for y in walk(g) if is_const(y) and isinstance(cval(y), str)}
                    if cs - GROUPS and not about_settings(key.args[0]):
                        odd = odd or f"some columns are left out by name: {show(g, 5)[:120]}"
                    continue
                others = [h for z, h, kk, _ in found if h is not g and entry_name(kk) and kk.args[0] is key.args[0] or h is None and kk is key]
                if others:
                    odd = odd or f"two ways for a column: {show(g, 5)[:120]}"
                    continue
                if any(y.op == "rest" and any(z is key.args[0] for z in walk(y)) for d in walk(t) if d.op == "dict" and x in d.args for y in d.args):
                    continue
                bad = f"a column is left out unless {show(g, 5)[:160]}"
        if bad:
            r.fail(k, where(f), bad)
        elif odd:
            r.unknown(k, where(f), odd)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- questions leave the ensemble alone
CONTENT = {"_ancil", "_frozen", "_gen_obj", "_gen_func", "_gen_class"}


@memo
def left_alone(w):
    r = Result("query-leaves", "a method of an ensemble that answers a question assigns neither its distributions nor its extra table")
    for k, f in functions(w):
        if f.cls is None or f.cls.name != "Ensemble" or k not in w.R.funcs or f.name == "__init__":
            continue
        s, rs = summ(w, f), summ(w, w.R.funcs[k], w.R)
        if s is None or rs is None:
            r.unknown(k, where(f), "not analysable")
            continue
        may = {n for (b, n) in rs.attrs}
        if may & CONTENT:
            continue
        bad = None
        for (b, n), v in s.attrs.items():
            if b is SELF and n in CONTENT and w.canon(v) is not mk("attr", SELF, n):
                bad = f"assigns self.{n}: {show(w.canon(v), 4)[:140]}"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- comparing tables
@memo
def compared_whole(w):
    r = Result("compared-whole", "tables are matched against one and the same table over all of them, in both directions, and no more loosely than by the library's own tolerance")
    for k, f in functions(w):
        if not (f.name.startswith("compare") or f.name == "check_keys") or f.cls is not None or k not in w.R.funcs:
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        bad = None
        prm = [mk("param", p) for p in own_params(f)]
        for t in every_term(w, s):
            for x in walk(t):
                if x.op == "slice" and len(x.args) == 3 and is_const(x.args[2]) and x.args[2] is not NONE and cval(x.args[2]) not in (1, -1):
                    bad = f"only some of the tables take part: {show(x, 4)}"
                elif x.op == "index" and x.args[0] in prm and x.args[1].op == "slice" and is_const(x.args[1].args[1]) and x.args[1].args[1] is not NONE and bad is None and \
                        not any(y.op == "index" and y.args[0] is x.args[0] and y.args[1].op == "slice" and y is not x for y in walk(t)):
                    bad = f"only some of the tables take part: {show(x, 4)}"
                elif x.op == "call" and x.args[0] in ("numpy.allclose", "numpy.isclose", "math.isclose"):
                    d = dict(x.args[2])
                    for n, most in (("rtol", 1e-5), ("atol", 1e-8), ("rel_tol", 1e-5), ("abs_tol", 1e-8)):
                        v = d.get(n)
                        if v is not None and (not is_const(v) or isinstance(cval(v), (int, float)) and cval(v) > most):
                            bad = f"values that differ are taken to match: {n}={show(v, 3)[:60]}"
                    if d.get("equal_nan") is TRUE:
                        bad = "missing numbers are taken to match"
        if f.name == "check_keys" and bad is None:
            bad = one_way(every_term(w, s), prm)
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


def one_way(terms, prm):
    """the names are compared in one direction only"""
    pairs, both = [], False
    for t in terms:
        for x in walk(t):
            if x.op == "eq" and any(p in walk(x) for p in prm):
                both = True
            if x.op == "add" and len(x.args) == 2:
                neg = [y for y in x.args if y.op == "mul" and len(y.args) == 2 and is_const(y.args[0]) and cval(y.args[0]) == -1]
                pos = [y for y in x.args if y not in neg]
                if len(neg) == 1 and len(pos) == 1:
                    a, b = names_of(pos[0]), names_of(neg[0].args[1])
                    if a is not None and b is not None:
                        pairs.append((a, b))
            if x.op in ("lt", "le"):
                a, b = names_of(x.args[0]), names_of(x.args[1])
                if a is not None and b is not None:
                    pairs.append((a, b))
            if x.op == "meth" and x.args[0] in ("issubset", "issuperset", "difference") and x.args[2]:
                a, b = names_of(x.args[1]), names_of(x.args[2][0])
                if a is not None and b is not None:
                    pairs.append((b, a) if x.args[0] == "issuperset" else (a, b))
            if x.op == "meth" and x.args[0] == "symmetric_difference" or x.op == "bitxor":
                both = True
    if both or not pairs:
        return None
    if any((b, a) in pairs for a, b in pairs):
        return None
    a, b = pairs[0]
    return f"the names are compared in one direction only: {show(a, 4)[:60]} against {show(b, 4)[:60]}"


def names_of(t):
    """the table whose names a term stands for"""
    for _ in range(4):
        if t.op == "call" and t.args[0] in ("set", "frozenset") and t.args[1]:
            t = t.args[1][0]
        elif t.op == "meth" and t.args[0] == "keys":
            return t.args[1]
        elif t.op in ("index", "param"):
            return t
        else:
            return None
    return None


# ---------------------------------------------------------------- every table is measured
@memo
def measured(w):
    r = Result("always-measured", "an extra table is measured against the number of PDFs whatever that number is and whatever the table holds")
    for k, f in functions(w):
        if k not in w.R.funcs:
            continue
        s = summ(w, f)
        if s is None:
            continue
        hits = [(c, e.args[0]) for c, e in flat_events(s) if e.op == "ev" and e.args[0].op == "icall" and e.args[0].args[0] == "check_array_shapes"]
        if not hits:
            continue
        rs = summ(w, w.R.funcs[k], w.R)
        known = {w.canon(c) for cs, e in (flat_events(rs) if rs is not None else ()) for c in cs}
        bad = None
        free = any(not c for c, _ in hits)
        for cs, e in hits:
            for c, v in literals([(w.canon(x), True) for x in cs]):
                if c in known or free:
                    continue
                if c.op in ("lt", "le", "eq") and any(is_const(y) and not isinstance(cval(y), str) for y in c.args) and \
                        any(y.op == "attr" and y.args[1] in ("npdf", "_npdf") or y.op in ("len", "size", "npdf") for y in walk(c)):
                    bad = f"the table is measured only when {'' if v else 'not '}{show(c, 4)[:140]}"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- masked histogram values
@memo
def masked(w):
    r = Result("masked", "outside the bins a histogram evaluator answers zero: the value, slope term included, is taken under the mask of the points inside")
    for k, f in functions(w):
        if not f.name.startswith("evaluate_hist") or f.cls is not None or k not in w.R.funcs:
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        t = w.canon(s.ret)
        bad = None
        for x in walk(t):
            if x.op != "add":
                continue
            if not any(y.op == "call" and y.args[0] == "numpy.where" for z in x.args for y in walk(z)):
                continue
            out = [z for z in x.args if not (z.op == "call" and z.args[0] == "numpy.where") and not any(inside(y) for y in walk(z)) and
                   any(y.op == "param" and y.args[0] in ("vals", "derivs") for y in walk(z))]
            if out and any(z.op == "call" and z.args[0] == "numpy.where" for z in x.args):
                bad = f"part of the value is not under the mask: {show(out[0], 4)[:140]}"
        for x in walk(t):
            if x.op == "call" and x.args[0] == "numpy.where":
                kw = dict(x.args[2])
                c, a, b = (kw.get(n) for n in ("condition", "x", "y"))
                if c is not None and a is not None and b is not None and c.op != "not" and c.op != "isnone" and any(inside(q) for q in walk(c)) and not any(q.op in ("not", "eq", "lt") for q in walk(c)) and \
                        not is_const(b) and any(q.op == "param" and q.args[0] == "vals" for q in walk(b)) and any(q.op == "param" and q.args[0] == "vals" for q in walk(a)):
                    bad = f"outside the bins the answer is {show(b, 4)[:120]}"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


def inside(y):
    """the mask of the points inside the bins"""
    return y.op == "index" and y.args[0].op == "icall" and y.args[0].args[0] == "get_bin_indices" and is_const(y.args[1]) and cval(y.args[1]) == 1


# ---------------------------------------------------------------- numbers of distinct rows
REORDERS = {"numpy.argsort", "numpy.sort", "sorted", "numpy.flip", "numpy.roll", "numpy.random.permutation", "numpy.flipud", "reversed"}


@memo
def inverse_rows(w):
    r = Result("inverse-rows", "a table made for the distinct rows is looked up with the numbers that belong to it: the rows as np.unique lists them")
    for k, f in functions(w):
        s = summ(w, f)
        if s is None:
            continue
        for t in every_term(w, s):
            uses = [x for x in walk(t) if x.op == "index" and of_unique(x.args[0], "return_inverse") and is_const(x.args[1]) and cval(x.args[1]) not in (0,) and inverse_slot(x)]
            if not uses:
                continue
            bad = None
            for u in uses:
                a = first_arg(u.args[0])
                for x in walk(t):
                    # the list of distinct rows of the same argument, rearranged
                    if x.op == "index" and of_unique(x.args[0]) and first_arg(x.args[0]) is a and is_const(x.args[1]) and cval(x.args[1]) == 0:
                        for y in walk(t):
                            if y.op == "index" and y.args[0] is x and any(z.op == "call" and z.args[0] in REORDERS for z in walk(y.args[1])):
                                bad = f"the distinct rows are rearranged, the numbers into them are not: {show(y, 4)[:140]}"
                            if y.op == "call" and y.args[0] in REORDERS and y.args[0] != "numpy.argsort" and any(z is x for z in children(y)):
                                bad = f"the distinct rows are rearranged, the numbers into them are not: {show(y, 4)[:140]}"
            if bad:
                r.fail(k, where(f), bad)
            else:
                r.good(k)
            break
    return r


def of_unique(t, flag=None):
    return t.op == "call" and t.args[0] == "numpy.unique" and (flag is None or any(n == flag for n, _ in t.args[2]))


def first_arg(t):
    return t.args[1][0] if t.args[1] else dict(t.args[2]).get("ar")


def inverse_slot(x):
    flags = [n for n in ("return_index", "return_inverse", "return_counts") if any(m == n and v is TRUE for m, v in x.args[0].args[2])]
    i = cval(x.args[1])
    return isinstance(i, int) and 1 <= i <= len(flags) and flags[i - 1] == "return_inverse"


# ---------------------------------------------------------------- one integral
def plain(t, names):
    """a product or sum over the given arrays, written out: diff as a difference of slices, trapz as its terms"""
    def go(x):
        if x in names:
            return mk("ref", names[x])
        x = rebuild(x, go)
        if x.op == "call" and x.args[0] == "numpy.diff":
            d = dict(x.args[2])
            a = x.args[1][0] if x.args[1] else d.get("a")
            if a is not None and a.op == "ref" and set(d) <= {"a", "axis"}:
                if a.args[0] == "W":
                    return x
                return mk("add", cut(a, 1, None), mk("mul", const(-1), cut(a, None, -1)))
        return x
    return go(t)


def cut(a, lo, hi):
    return mk("index", a, mk("tuple", mk("slice", NONE, NONE, NONE), mk("slice", const(lo) if lo is not None else NONE, const(hi) if hi is not None else NONE, NONE)))


def summed(w, t, names, ops):
    """what the sum (or cumulative sum, or trapezoid rule) in a term adds up, as a canonical polynomial"""
    out = []
    for x in walk(t):
        if x.op != "call" or x.args[0] not in ops:
            continue
        d = dict(x.args[2])
        if x.args[0] in ("numpy.trapz", "scipy.integrate.trapezoid"):
            y = d.get("y") or (x.args[1][0] if x.args[1] else None)
            xx = d.get("x") or (x.args[1][1] if len(x.args[1]) > 1 else None)
            if y is None or xx is None:
                continue
            y, xx = plain(y, names), plain(xx, names)
            e = mk("mul", const(0.5), mk("add", cut(y, 1, None), cut(y, None, -1)), mk("add", cut(xx, 1, None), mk("mul", const(-1), cut(xx, None, -1))))
        else:
            e = d.get("a") or (x.args[1][0] if x.args[1] else None)
            if e is None:
                continue
            e = plain(e, names)
        out.append(arranged(e))
    return out


def arranged(t):
    """sums and products multiplied out, in one order"""
    def terms(x):
        if x.op == "add":
            return [z for y in x.args for z in terms(y)]
        if x.op == "mul":
            out = [(1, ())]
            for y in x.args:
                out = [(c * d, a + b) for c, a in out for d, b in terms(y)]
            return out
        if is_const(x) and isinstance(cval(x), (int, float)) and not isinstance(cval(x), bool):
            return [(cval(x), ())]
        return [(1, (x,))]
    total = {}
    for c, fs in terms(t):
        key = tuple(sorted(fs, key=lambda z: show(z, 12)))
        total[key] = total.get(key, 0) + c
    out = [mk("mul", const(float(c)), *k) for k, c in sorted(total.items(), key=lambda kv: [show(z, 12) for z in kv[0]]) if c]
    return mk("add", *out)


OPEN = {"add", "mul", "index", "tuple", "slice", "const", "ref", "pow"}


@memo
def one_integral(w):
    r = Result("one-integral", "the integral a PDF is divided by is the integral its cumulative table accumulates: the two sums add up the same terms")
    pairs = [("interp_irregular_gen", "normalize_interp1d", {"xvals": "X", "yvals": "Y"}, "_compute_ycumul", {"_xvals": "X", "_yvals": "Y"}),
             ("hist_gen", "hist_gen.__init__", {"bins": "B", "pdfs": "Y"}, "_compute_cdfs", {"_hbin_widths": "W", "_hpdfs": "Y"})]
    for cn, nk, pn, cm, an in pairs:
        c, nf = w.U.classes.get(cn), w.U.funcs.get(nk)
        cf = w.U.find_method(c, cm) if c is not None else None
        if nf is None or cf is None or isinstance(cf, tuple):
            continue
        s, sc = summ(w, nf), w.summary(w.U, cf, c)
        if s is None or isinstance(sc, Exception):
            r.unknown(cf.key, where(cf), "not analysable")
            continue
        names = {mk("param", p): n for p, n in pn.items()}
        for p, n in pn.items():
            names[mk("icall", "reshape_to_pdf_size", (("split_dim", const(-1)), ("vals", mk("param", p))))] = n
            if n == "B":
                names[w.canon(mk("call", "numpy.diff", (), (("a", mk("param", p)),)))] = "W"
        t1 = [w.canon(s.ret)] + [w.canon(v) for v in s.attrs.values()]
        a = [z for t in t1 for z in summed(w, t, names, ("numpy.sum", "numpy.trapz", "scipy.integrate.trapezoid"))]
        t2 = [w.canon(v) for v in sc.attrs.values()] + [w.canon(sc.ret)]
        b = [z for t in t2 for z in summed(w, t, {mk("attr", SELF, p): n for p, n in an.items()}, ("numpy.cumsum", "numpy.cumulative_sum"))]
        a, b = set(a), set(b)
        if len(a) != 1 or len(b) != 1 or not all(y.op in OPEN for z in a | b for y in walk(z)):
            r.unknown(cf.key, where(cf), "the two sums were not recognised")
            continue
        x, y = a.pop(), b.pop()
        if x is y:
            r.good(cf.key)
        else:
            for key, f in ((cf.key, cf), (nf.key, nf)):
                r.fail(key, where(f), f"the PDFs are divided by the sum of {show(x, 6)[:120]}, their cumulative table adds up {show(y, 6)[:120]}")
    return r


# ---------------------------------------------------------------- points as they are laid out
@memo
def layout(w):
    r = Result("layout-kept", "sorting out how points and rows belong together never rearranges them, drops repeated ones or changes their values")
    for k, f in functions(w):
        if f.name != "get_eval_case" or f.cls is not None:
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        bad = None
        for path, leaf in leaves_of(w.canon(s.ret)):
            if leaf.op != "tuple" or len(leaf.args) < 3:
                continue
            for part in leaf.args[1:]:
                part = part.args[0] if part.op == "el" else part
                for x in walk(part):
                    if x.op == "call" and x.args[0] in ("numpy.unique", "numpy.sort", "sorted", "set", "numpy.round", "numpy.around", "numpy.clip", "numpy.flip"):
                        bad = f"hands back {show(part, 4)[:140]}"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- what is read is handed over
RESHAPES = {"numpy.squeeze", "numpy.ravel", "numpy.round", "numpy.around", "numpy.sort", "numpy.unique", "numpy.nan_to_num", "numpy.clip", "numpy.abs", "numpy.float32",
            "numpy.transpose", "numpy.flip", "numpy.repeat", "numpy.tile", "numpy.broadcast_to", "numpy.resize", "numpy.atleast_2d"}


@memo
def as_stored(w):
    r = Result("read-as-stored", "the extra table read from a file reaches the ensemble as it was stored, column for column and row for row")
    for k, f in functions(w):
        if k not in ("Factory.from_tables", "Factory.iterator", "Factory.read", "Factory.read_dict"):
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        rs = summ(w, w.R.funcs[k], w.R) if k in w.R.funcs else None
        known = {x.args[0] for t in (every_term(w, rs) if rs is not None else ()) for x in walk(t) if x.op in ("call", "meth")}
        bad, seen = None, 0
        if k == "Factory.read_dict":
            for t in every_term(w, s):
                for y in walk(t):
                    if y.op == "call" and y.args[0] in RESHAPES and y.args[0] not in known or y.op == "meth" and y.args[0] not in known and \
                            y.args[0] in ("squeeze", "ravel", "flatten", "astype", "sort", "transpose"):
                        bad = f"a column is changed after it was read: {show(y, 3)[:120]}"
        for t in every_term(w, s):
            for x in walk(t):
                if x.op == "new" and x.args and x.args[0] in ("Ensemble", "cref:Ensemble") or x.op in ("new", "call") and "Ensemble" in show(x, 1)[:14]:
                    for n, v in x.args[-1] if isinstance(x.args[-1], tuple) else ():
                        if n not in ("ancil",) or not isinstance(v, T):
                            continue
                        seen += 1
                        for y in walk(v):
                            if y.op == "call" and y.args[0] in RESHAPES and y.args[0] not in known:
                                bad = f"a column of the extra table is changed after it was read: {show(y, 3)[:120]}"
                            elif y.op == "meth" and y.args[0] in ("squeeze", "ravel", "flatten", "astype", "sort", "transpose") and y.args[0] not in known:
                                bad = f"a column of the extra table is changed after it was read: {show(y, 3)[:120]}"
                    for n, v in x.args[-1] if isinstance(x.args[-1], tuple) else ():
                        if n == "data" and isinstance(v, T):
                            for y in walk(v):
                                if y.op == "index" and y.args[1].op == "slice" and y.args[0].op == "index" and merged(y.args[0].args[0]) and not is_const(y.args[0].args[1]):
                                    bad = bad or f"settings are cut as if they were columns: {show(y, 3)[:120]}"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


def merged(t):
    """settings and columns in one table"""
    return t.op == "icall" and str(t.args[0]).endswith("_build_data_dict")


@memo
def not_in_place(w):
    from .rules import caller_storage
    r = Result("not-in-place", "an ensemble never edits the tables of the distributions it holds: new content replaces them only once it is accepted")
    c = caller_storage(w, False)
    hit = {k: (k, at, text) for k, at, text in c.bad if k.startswith("Ensemble.") and "which another object owns" in text}
    for k, f in functions(w):
        if k.startswith("Ensemble."):
            if k in hit:
                r.fail(*hit[k])
            else:
                r.good(k)
    return r


use("C04", in_cone(not_in_place)("C04"))
for _p in ("C01", "C02", "C03"):
    use(_p, in_cone(settings_carried)(_p))
for _p in ("C01", "C02", "C03", "C04", "C05", "C13", "C14", "C15"):
    use(_p, in_cone(columns_whole)(_p))
for _p in ("C02", "C04", "C24"):
    use(_p, in_cone(left_alone)(_p))
for _p in ("C03", "C13"):
    use(_p, in_cone(compared_whole)(_p))
use("C05", in_cone(measured)("C05"))
use("C08", in_cone(masked)("C08"))
for _p in ("C09", "C22"):
    use(_p, in_cone(inverse_rows)(_p))
for _p in ("C09", "C10"):
    use(_p, in_cone(one_integral)(_p))
use("C11", in_cone(layout)("C11"))
for _p in ("C13", "C14"):
    use(_p, in_cone(as_stored)(_p))

ALL = ("settings_carried", "columns_whole", "left_alone", "compared_whole", "measured", "masked", "inverse_rows", "one_integral", "layout", "as_stored", "not_in_place")
