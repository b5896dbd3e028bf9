"""Rules about what tables, settings and generators owe on the way from one holder to another."""
import ast
from .clauses import memo
from .rules import SELF, Result, where, functions, summ, use, in_cone
from .duties import every_term, guarded, MOVERS
from .obligations import own_params, flat_events, leaves_of, literals, none_guard
from .vocab import values_of, outcomes
from .terms import mk, T, walk, show, is_const, cval, NONE, children

# ---------------------------------------------------------------- which constructor the tables of an ensemble belong to
@memo
def made_again(w):
    r = Result("made-by-create", "an ensemble made from another one's tables and settings is made by the constructor those belong to (create), not by the function the other "
               "one was made with, whose arguments may be different ones")
    for k, f in functions(w):
        if k != "Factory.concatenate" and (f.cls is None or f.cls.name != "Ensemble"):
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        bad, seen = None, 0
        for t in every_term(w, s):
            for x in walk(t):
                if x.op != "new" or x.args[0] != "Ensemble":
                    continue
                kw = {a[0]: a[1] for a in x.args[1] if isinstance(a, tuple) and len(a) == 2}
                g, d = kw.get("gen_func"), kw.get("data")
                if g is None or d is None or not any(z.op in ("smeth", "meth") and z.args[0] == "objdata" for z in walk(d)):
                    continue
                seen += 1
                if not any(z.op == "attr" and z.args[1] == "create" for z in walk(g)) and any(
                        z.op == "attr" and z.args[1] in ("_gen_func", "gen_func") for z in walk(g)):
                    bad = f"the tables are given to {show(g, 4)}"
        if bad:
            r.fail(k, where(f), bad)
        elif seen:
            r.good(k)
    return r


# ---------------------------------------------------------------- columns are not cut
CUTTERS = {"Ensemble.__getitem__", "slice_dict", "Factory.iterator", "Ensemble.iterator", "check_array_shapes", "Factory.from_tables"}
REWORKS = {"numpy.ravel", "numpy.squeeze", "numpy.sort", "numpy.unique", "numpy.resize", "numpy.round", "numpy.clip", "numpy.flip", "numpy.nan_to_num", "numpy.transpose",
           "numpy.repeat", "numpy.broadcast_to", "numpy.tile"}


def cut(v, key):
    """part of an entry, or the entry worked over"""
    for z in walk(v):
        if z.op == "index" and z.args[0].op in ("index", "getdef") and len(z.args[0].args) > 1 and z.args[0].args[1] is key:
            ks = z.args[1].args if z.args[1].op == "tuple" else (z.args[1],)
            if any(q.op == "slice" and not all(a is NONE for a in q.args) for q in ks):
                return z
        if z.op == "call" and z.args[0] in REWORKS and any(q.op == "index" and q.args[1] is key for q in walk(z)):
            return z
        if z.op == "meth" and z.args[0] in ("ravel", "flatten", "squeeze", "sort", "transpose") and any(q.op == "index" and q.args[1] is key for q in walk(z.args[1])):
            return z
    return None


@memo
def uncut(w):
    r = Result("columns-uncut", "where tables are put together, updated, added to or checked, every entry goes in as it was given: no rows are cut off and nothing is rearranged")
    for k, f in functions(w):
        if k not in MOVERS and k != "Ensemble.update_objdata" or k in CUTTERS and k != "Ensemble.__getitem__" or k not in w.R.funcs:
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        rs = summ(w, w.R.funcs[k], w.R)
        old = {(z.op, z.args[0] if z.op != "index" else "") for t in every_term(w, rs) for _, _, key, val in guarded(t) for z in [cut(val, key)] if z is not None} if rs is not None else set()
        bad = None
        if k == "Ensemble.__getitem__":
            fixed = [{z for t in every_term(w, q) for z in walk(t) if z.op == "index" and z.args[1].op == "slice" and all(is_const(a) for a in z.args[1].args) and
                      not all(a is NONE for a in z.args[1].args)} for q in (s, rs) if q is not None]
            if fixed[0] and not fixed[-1]:
                bad = f"an entry is cut at a fixed place: {show(sorted(fixed[0], key=lambda z: len(show(z, 4)))[0], 4)[:160]}"
        for t in every_term(w, s):
            for _, _, key, val in guarded(t):
                z = None if k in CUTTERS else cut(val, key) if isinstance(val, T) else None
                if z is not None and (z.op, z.args[0] if z.op != "index" else "") not in old:
                    bad = f"an entry is changed on the way: {show(z, 4)[:160]}"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- one divisor
def divisors(t):
    """what the values are divided by, cell by cell"""
    out = set()
    for z in [t] + [q for q in t.args if isinstance(q, T)] if t.op == "ite" else [t]:
        if z.op == "mul":
            for p in z.args:
                p = p.args[0] if p.op == "expand" else p
                if p.op == "pow" and is_const(p.args[1]) and cval(p.args[1]) == -1:
                    out.add(p.args[0].args[0] if p.args[0].op == "expand" else p.args[0])
    return out


@memo
def one_divisor(w):
    r = Result("one-divisor", "density and cumulative table of a PDF are divided by one and the same integral, the last value of the cumulative table")
    for cn in ("interp_gen", "packed_interp_gen"):
        c = w.U.classes.get(cn)
        f = w.U.find_method(c, "__init__") if c is not None else None
        if f is None or isinstance(f, tuple):
            continue
        s = w.summary(w.U, f, c)
        if isinstance(s, Exception):
            r.unknown(f.key, where(f), "not analysable")
            continue
        vs = {n: w.canon(v) for (b, n), v in s.attrs.items() if b == SELF}
        y, cu = vs.get("_yvals"), vs.get("_ycumul")
        if y is None or cu is None:
            continue
        a, b = divisors(y), divisors(cu)
        if len(a) != 1 or len(b) != 1:
            r.unknown(f.key, where(f), "the divisors were not recognised")
            continue
        p, q = a.pop(), b.pop()
        same = p is q or w.soft(p) is w.soft(q)
        sums = [any(z.op == "call" and z.args[0] in ("numpy.trapz", "scipy.integrate.trapezoid", "scipy.integrate.simpson", "numpy.sum") for z in walk(x)) for x in (p, q)]
        cums = [any(z.op == "call" and z.args[0] == "numpy.cumsum" for z in walk(x)) for x in (p, q)]
        if same:
            r.good(f.key)
        elif cums[1] and sums[0] and not cums[0]:
            r.fail(f.key, where(f), f"the PDFs are divided by {show(p, 4)[:140]}, their cumulative table by {show(q, 4)[:140]}")
        else:
            r.unknown(f.key, where(f), "two divisors which were not compared")
    return r


# ---------------------------------------------------------------- chunks stand for themselves
@memo
def chunk_alone(w):
    r = Result("chunk-alone", "what an iteration over a file yields is made from that chunk and the settings alone, never from what an earlier chunk left behind")
    for k, f in functions(w):
        if f.name != "iterator":
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        bad = None
        for t in every_term(w, s):
            for y in walk(t):
                if y.op != "yield":
                    continue
                for z in walk(y):
                    if z.op == "attr" and z.args[0].op == "carried" and z.args[1] not in ("size", "shape", "ndim", "T", "dtype"):
                        bad = f"a chunk is made with {z.args[1]} of what the chunk before left behind"
                    if z.op == "icall" and any(q.op == "carried" for n, q in z.args[1] if n in ("md_table", "data_table")):
                        bad = "a chunk is made from a table the chunk before left behind"
                    if z.op == "ref" and isinstance(z.args[0], str) and z.args[0].startswith("?"):
                        bad = f"a chunk holds {z.args[0][1:]} as an earlier chunk left it"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r



# ---------------------------------------------------------------- rows counted against the ensemble
@memo
def rows_checked(w):
    r = Result("new-rows-checked", "what is put into the extra table was measured, itself, against the number of PDFs the ensemble has")
    for k, f in functions(w):
        if f.cls is None or f.cls.name != "Ensemble" or f.name == "__init__":
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        v = next((w.canon(v) for (b, n), v in s.attrs.items() if b is SELF and n == "_ancil"), None)
        given = [] if v is None else [p for p in own_params(f) if any(z.op == "param" and z.args[0] == p for z in walk(v))]
        if not given:
            continue
        tests = []
        for _, e in flat_events(s):
            for x in walk(w.canon(e)):
                if x.op == "icall" and x.args[0] == "check_array_shapes":
                    tests.append(dict(x.args[1]))
        for p in given:
            here = [t for t in tests if "in_dict" in t and any(z.op == "param" and z.args[0] == p for z in walk(t["in_dict"]))]
            own = [t for t in here if "npdf" in t and any(not (x.op == "attr" and x.args[1] == "npdf") and any(z.op == "param" and z.args[0] == p for z in walk(x))
                                                          for _, x in leaves_of(t["npdf"]))]
            nf = next((w.canon(v) for (b, n), v in s.attrs.items() if b is SELF and n == "_frozen"), None)
            old = mk("attr", SELF, "_frozen")
            stale = [t for t in here[:1] if nf is not None and nf is not old and "npdf" in t and any(z is old for _, x in leaves_of(t["npdf"]) for z in walk(x))]
            if not tests:
                r.unknown(k, where(f), "no check was recognised")
            elif stale:
                r.fail(k, where(f), f"{p} is in some case checked against the number of PDFs the ensemble had before: {show(stale[0]['npdf'], 4)[:140]}")
            elif not here:
                r.fail(k, where(f), f"{p} goes into the extra table without having been checked")
            elif own:
                r.fail(k, where(f), f"{p} is checked against a number of rows of its own: {show(own[0]['npdf'], 4)[:140]}")
            else:
                r.good(k)
    return r


# ---------------------------------------------------------------- settings as they were given
@memo
def as_given(w):
    r = Result("setting-as-given", "a setting given to a constructor is kept in every case, never a fixed value in its place")
    for k, f in functions(w):
        if f.name != "__init__" or f.cls is None or k not in w.R.funcs:
            continue
        s, rs = summ(w, f), summ(w, w.R.funcs[k], w.R)
        if s is None or rs is None:
            r.unknown(k, where(f), "not analysable")
            continue
        bad = None
        for (b, n), v in s.attrs.items():
            if b is not SELF or (b, n) not in rs.attrs:
                continue
            ref, cur = list(leaves_of(w.canon(rs.attrs[b, n]))), list(leaves_of(w.canon(v)))
            for p in own_params(f):
                q = mk("param", p)
                if not all(any(z is q for z in walk(x)) for _, x in ref):
                    continue
                for path, x in cur:
                    if any(z.op in ("param", "self") for z in walk(x)) or not path:
                        continue
                    if any(c.op in ("eq", "isnone", "in") and any(z is q for z in walk(c)) for c, _ in literals(path)):
                        continue
                    if is_const(x) or x.op in ("attr", "enum", "gref"):
                        bad = f"self.{n} becomes {show(x, 3)} in some case, whatever {p} is"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- one point, one value
WHOLE = {"numpy." + n for n in "min max amin amax mean median sum ptp nanmin nanmax nanmean std any all".split()} | {"min", "max"}
POINTS = {"_pdf", "_cdf", "_ppf", "_sf", "_isf", "_logpdf", "_interpolate"}


def all_at_once(t, names):
    """reductions of all the points of a query to one number which take part in the values"""
    out = set()
    for z in values_of(t):
        if z.op == "call" and z.args[0] in WHOLE and len(z.args[1]) + len(z.args[2]) == 1 and any(q.op == "param" and q.args[0] in names for q in walk(z)):
            out.add(z)
        elif z.op == "meth" and "numpy." + z.args[0] in WHOLE and not z.args[2] and not z.args[3] and any(q.op == "param" and q.args[0] in names for q in walk(z.args[1])):
            out.add(z)
    return out


@memo
def point_alone(w):
    r = Result("point-alone", "the value at a point is worked out from that point and its row, never from the smallest, largest or summed value over all points asked for")
    for k, f in functions(w):
        if f.name not in POINTS or f.cls is None or k not in w.R.funcs:
            continue
        s, rs = summ(w, f), summ(w, w.R.funcs[k], w.R)
        if s is None or rs is None:
            r.unknown(k, where(f), "not analysable")
            continue
        names = set(own_params(f))
        old = {(z.op, z.args[0]) for z in all_at_once(w.canon(rs.ret), names)}
        bad = [z for z in all_at_once(w.canon(s.ret), names) if (z.op, z.args[0]) not in old]
        if bad:
            r.fail(k, where(f), f"all points together decide on the value at each: {show(bad[0], 4)[:160]}")
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- as many draws as asked for
DRAW = {"uniform", "random", "random_sample", "normal", "standard_normal", "choice", "rand", "integers", "randint", "multinomial", "exponential"}


@memo
def as_many(w):
    r = Result("as-many-as-asked", "the random numbers behind the samples of a generator are drawn in the number asked for")
    for k, f in functions(w):
        if f.name != "_rvs" or f.cls is None:
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        bad, seen = None, 0
        for x in walk(w.canon(s.ret)):
            if x.op != "meth" or x.args[0] not in DRAW or not any(z.op == "param" and "random" in z.args[0] for z in walk(x.args[1])):
                continue
            kw = dict(x.args[3])
            if "size" not in kw:
                continue
            seen += 1
            for path, leaf in leaves_of(kw["size"]):
                if leaf is not NONE and not any(z.op in ("param", "getdef") and ("size" in z.args or any(is_const(q) and cval(q) == "size" for q in children(z))) for z in walk(leaf)) \
                        and any(z.op in ("param", "attr", "index") for z in walk(leaf)) and not none_guard(path):
                    bad = f"in some case the number drawn is {show(leaf, 4)[:140]}, whatever size is asked for"
        if bad:
            r.fail(k, where(f), bad)
        elif seen:
            r.good(k)
        else:
            r.unknown(k, where(f), "no draw was recognised")
    return r


# ---------------------------------------------------------------- built before it is read
@memo
def built_first(w):
    r = Result("built-before-read", "what a reconstruction prepares on its first use is prepared before it is read, on every path")
    for k, f in functions(w):
        if f.cls is None or f.name != "construct_pdf" or k not in w.R.funcs:
            continue
        s, rs = summ(w, f), summ(w, w.R.funcs[k], w.R)
        init = w.U.find_method(f.cls, "__init__")
        prep = w.U.find_method(f.cls, "prepare_constructor")
        si = summ(w, init) if init is not None and not isinstance(init, tuple) else None
        sp = summ(w, prep) if prep is not None and not isinstance(prep, tuple) else None
        if s is None or rs is None or si is None or sp is None:
            r.unknown(k, where(f), "not analysable")
            continue
        late = {n for (b, n), v in si.attrs.items() if b is SELF and w.canon(v) is NONE} & {n for (b, n) in sp.attrs if b is SELF}
        bad = odd = None
        usual = {n for n, path in readings(w.canon(rs.ret), late) if not vouched(path, late)}
        for n, path in readings(w.canon(s.ret), late):
            if n in usual or vouched(path, late):
                continue
            other = {z.args[1] for c, _ in path for z in walk(c) if z.op == "attr" and z.args[0] is SELF} - late
            if other:
                odd = f"self.{n} is read under a condition on {sorted(other)[0]}"
            else:
                bad = f"self.{n} is read before it was prepared, on the path " + "; ".join((("" if v else "not ") + show(c, 4))[:90] for c, v in path)[:200]
        if bad:
            r.fail(k, where(f), bad)
        elif odd:
            r.unknown(k, where(f), odd)
        else:
            r.good(k)
    return r


@memo
def tables_first(w):
    r = Result("tables-before-queries", "a table which is not there after construction is built by every query which reads it, whatever the settings are")
    for k, f in functions(w):
        if f.cls is None or f.name not in ("_pdf", "_cdf", "_ppf", "_munp", "custom_generic_moment") or k not in w.R.funcs:
            continue
        init = w.U.find_method(f.cls, "__init__")
        si = summ(w, init) if init is not None and not isinstance(init, tuple) else None
        s, rs = summ(w, f), summ(w, w.R.funcs[k], w.R)
        if s is None or si is None or rs is None:
            continue
        late = {n for (b, n), v in si.attrs.items() if b is SELF and w.canon(v) is NONE}
        if not late:
            continue
        moving = {t.attr for c in w.U.mro(f.cls) if hasattr(c, "methods") for g in c.methods.values() if hasattr(g, "node") and g.name != "__init__"
                  for t in ast.walk(g.node) if isinstance(t, ast.Attribute) and isinstance(t.ctx, ast.Store)}
        usual = {n for n, path in readings(w.canon(rs.ret), late) if not vouched(path, late)}
        bad = None
        for n, path in readings(w.canon(s.ret), late):
            if n in usual or vouched(path, late):
                continue
            other = {z.args[1] for c, _ in path for z in walk(c) if z.op == "attr" and z.args[0] is SELF} - late
            if not other & moving:
                bad = f"self.{n} is read without having been built" + (", when " + "; ".join((("" if v else "not ") + show(c, 4))[:90] for c, v in path)[:160] if path else "")
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- the reader for the version in the file
@memo
def version_stored(w):
    r = Result("version-as-stored", "the function which brings older tables up to date is looked up under the version found with the tables")
    for k, f in functions(w):
        if k != "Factory.from_tables":
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        bad, seen = None, 0
        for t in [w.canon(s.ret)] + [w.canon(e) for _, e in flat_events(s)]:
            for z in walk(t):
                a = None
                if z.op == "meth" and z.args[0] == "reader_method":
                    a = z.args[2][0] if z.args[2] else next((v for n, v in z.args[3] if n == "version"), None)
                elif z.op in ("icall", "smeth") and str(z.args[0]).split(".")[-1] == "reader_method":
                    a = next((v for n, v in z.args[1] if n == "version"), None) if z.op == "icall" else z.args[1][0] if z.args[1] else None
                if a is None:
                    continue
                seen += 1
                if not any(is_const(q) and cval(q) == "pdf_version" for q in walk(a)):
                    bad = f"the reader is looked up under {show(a, 4)[:120]}"
        if bad:
            r.fail(k, where(f), bad)
        elif seen:
            r.good(k)
        else:
            r.unknown(k, where(f), "no look-up of a reader was recognised")
    return r


# ---------------------------------------------------------------- places found in an array are used with that array
@memo
def cut_where_found(w):
    r = Result("cut-where-found", "an ordering is cut into groups at the places where the ordered values change, not where the unordered ones do")
    for k, f in functions(w):
        s = summ(w, f)
        if s is None:
            continue
        bad, seen = None, 0
        for t in every_term(w, s):
            for z in walk(t):
                if z.op != "call" or z.args[0] not in ("numpy.split", "numpy.array_split"):
                    continue
                kw = dict(z.args[2])
                order, at = kw.get("ary"), kw.get("indices_or_sections")
                if order is None or at is None or order.op != "call" or order.args[0] != "numpy.argsort":
                    continue
                key = dict(order.args[2]).get("a")
                for u in walk(at):
                    if u.op == "call" and u.args[0] == "numpy.unique":
                        ar = dict(u.args[2]).get("ar")
                        seen += 1
                        if ar is key:
                            bad = f"the groups are cut where the unordered {show(key, 3)[:80]} change"
        if bad:
            r.fail(k, where(f), bad)
        elif seen:
            r.good(k)
    return r


# ---------------------------------------------------------------- decoding a basis number
@memo
def shapes_decoded(w):
    r = Result("shapes-decoded", "the fastest index of a basis function is the remainder of its number after division by the number of shapes")
    for k, f in functions(w):
        if f.name != "indices2shapes":
            continue
        s = summ(w, f)
        if s is None or not (w.canon(s.ret).op == "tuple" and len(w.canon(s.ret).args) == 4):
            r.unknown(k, where(f), "not analysable")
            continue
        t = w.canon(s.ret).args
        dims = lambda x: {cval(q.args[1]) for q in walk(x) if q.op == "index" and is_const(q.args[1]) and isinstance(cval(q.args[1]), int) and
                          any(is_const(u) and cval(u) == "dims" for u in walk(q.args[0]))}
        g = t[3]
        bad = None
        if g.op == "index":
            ms = [q for q in walk(g.args[1]) if q.op == "mod"]
            outer = [q for q in ms if not any(q is not o and any(u is q for u in walk(o)) for o in ms)]
            if outer and all(dims(q.args[1]) == {1, 2} for q in outer):
                bad = f"the shape is looked up under {show(g.args[1], 6)[:160]}"
            elif not outer:
                r.unknown(k, where(f), "no remainder was recognised")
                continue
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- all of the ensembles are put together
@memo
def all_joined(w):
    r = Result("all-joined", "the tables of all the ensembles given are compared and joined, none is cut off the list")
    for k, f in functions(w):
        if k not in ("Factory.concatenate", "Ensemble.append"):
            continue
        bad, seen = None, 0
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and (n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, "attr", "")) in ("compare_dicts", "concatenate_dicts", "check_keys"):
                for a in n.args + [q.value for q in n.keywords]:
                    seen += 1
                    if isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Slice) and (a.slice.lower is not None or a.slice.upper is not None):
                        lo, up = a.slice.lower, a.slice.upper
                        if up is not None and not any(isinstance(q, (ast.Call, ast.Name)) for q in ast.walk(up)) or lo is not None and not (isinstance(lo, ast.Constant) and lo.value == 0):
                            bad = f"only {ast.unparse(a)} takes part in {ast.unparse(n.func)}"
        if bad:
            r.fail(k, where(f), bad)
        elif seen:
            r.good(k)
    return r


def vouched(path, late):
    return any(c.op == "isnone" and not v and c.args[0].op == "attr" and c.args[0].args[0] is SELF and c.args[0].args[1] in late for c, v in literals_of(path))


def literals_of(path):
    return list(literals(path))


def readings(t, names):
    """-> (attribute, the decisions on the way to it), tests for whether it is there apart"""
    out, seen = [], set()

    def go(x, path):
        if len(seen) > 20000 or (x, path) in seen:
            return
        seen.add((x, path))
        if x.op == "isnone":
            return
        if x.op == "attr" and x.args[0] is SELF and x.args[1] in names:
            out.append((x.args[1], path))
            return
        if x.op == "ite":
            go(x.args[0], path)
            go(x.args[1], path + ((x.args[0], True),) if (x.args[0], True) not in path else path)
            go(x.args[2], path + ((x.args[0], False),) if (x.args[0], False) not in path else path)
            return
        for c in children(x):
            go(c, path)
    go(t, ())
    return out


# ---------------------------------------------------------------- the whole tree of classes
@memo
def whole_tree(w):
    r = Result("whole-tree", "the classes below a class are looked for below every one of its subclasses, whatever those are")
    for k, f in functions(w):
        if f.name != "get_all_subclasses":
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        bad, seen = None, 0
        for t in every_term(w, s):
            for conds, x in under(t):
                if x.op == "icall" and x.args[0] == "get_all_subclasses" or x.op == "meth" and x.args[0] == "__subclasses__":
                    seen += 1
                    own = [c for c in conds if any(z.op == "attr" and not z.args[1].startswith("__") or z.op == "lt" for z in walk(c))]
                    if own:
                        bad = f"the subclasses of some are passed over: only if {show(own[0], 4)[:140]}"
        if bad:
            r.fail(k, where(f), bad)
        elif seen:
            r.good(k)
        else:
            r.unknown(k, where(f), "the search was not recognised")
    return r


def under(t, conds=(), depth=0):
    """-> (conditions on the way, subterm)"""
    if depth > 60:
        return
    yield conds, t
    if t.op == "g":
        for c in children(t)[1:]:
            yield from under(c, conds + (t.args[0],), depth + 1)
        return
    if t.op == "ite":
        yield from under(t.args[1], conds + (t.args[0],), depth + 1)
        yield from under(t.args[2], conds + (t.args[0],), depth + 1)
        return
    for c in children(t):
        yield from under(c, conds, depth + 1)


# ---------------------------------------------------------------- steps of a quantised value
ROUNDING = {"round", "numpy.round", "numpy.rint", "numpy.around", "numpy.round_"}


@memo
def rounded(w):
    r = Result("steps-rounded", "a quotient which becomes a whole number of steps is rounded to the nearest, not cut off")
    for k, f in functions(w):
        if k not in w.R.funcs or not k.endswith("build_sparse_representation"):
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        bad, seen = None, 0
        for t in every_term(w, s):
            for x in walk(t):
                if x.op == "call" and x.args[0] in ROUNDING:
                    seen += 1
                if x.op == "call" and x.args[0] in ("numpy.array", "numpy.asarray", "int", "numpy.trunc", "numpy.floor") or x.op == "meth" and x.args[0] == "astype":
                    kw = dict(x.args[-1]) if isinstance(x.args[-1], tuple) else {}
                    if x.op == "call" and x.args[0].startswith("numpy.a") and not any(z.op == "const" and z.args[1] in ("int", "int64", "int32", "i4", "i8") or z.op in ("gref", "ref", "attr") and
                                                                                     any("int" in str(q) for q in z.args if isinstance(q, str)) for z in [kw.get("dtype", NONE)]):
                        continue
                    v = kw.get("object", kw.get("a")) or (x.args[1][0] if x.op == "call" and x.args[1] else x.args[1] if x.op == "meth" else None)
                    if isinstance(v, T) and quotient(v):
                        bad = f"a quotient is cut to a whole number: {show(x, 3)[:160]}"
        if bad:
            r.fail(k, where(f), bad)
        elif seen:
            r.good(k)
        else:
            r.unknown(k, where(f), "no rounding was recognised")
    return r


def quotient(v):
    """a quotient by something which is not a whole number by itself, not rounded"""
    return v.op == "mul" and any(p.op == "pow" and is_const(p.args[1]) and isinstance(cval(p.args[1]), (int, float)) and cval(p.args[1]) < 0 for p in v.args) and \
        not any(p.op in ("len", "size", "dim", "shape") for p in v.args)


# ---------------------------------------------------------------- what was set stays
@memo
def first_kept(w):
    r = Result("first-entry-kept", "setting a default leaves an entry alone which is there already")
    for k, f in functions(w):
        if f.name != "set_val_or_default":
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        bad, seen = None, 0
        for conds, e in flat_events(s):
            for more, x in under(w.canon(e)):
                if x.op != "mut":
                    continue
                seen += 1
                lits = [c for c in tuple(conds) + tuple(more)]
                if not any(isinstance(z, T) and z.op in ("in", "exc", "isnone") for c in lits for z in (walk(c) if isinstance(c, T) else [q for p in c if isinstance(p, T) for q in walk(p)])) and \
                        any(z.op in ("setitem", "dict") for z in walk(x)) and not any(z.op in ("getdef", "in") or z.op == "meth" and z.args[0] in ("get", "setdefault") for z in walk(x)):
                    bad = f"an entry is replaced whether it is there or not: {show(x, 4)[:140]}"
        if bad:
            r.fail(k, where(f), bad)
        elif seen:
            r.good(k)
        else:
            r.unknown(k, where(f), "no change was recognised")
    return r


# ---------------------------------------------------------------- a new ensemble starts empty
CACHES = {"_gridded", "_samples"}


@memo
def starts_empty(w):
    r = Result("starts-without-cache", "an ensemble made from another one does not get the values kept by that other one")
    for k, f in functions(w):
        s = summ(w, f)
        if s is None:
            continue
        bad, seen = None, 0
        for (b, n), v in s.attrs.items():
            if n not in CACHES or b is SELF:
                continue
            seen += 1
            v = w.canon(v)
            if any(z.op == "attr" and z.args[1] in CACHES and z.args[0] is SELF for _, x in leaves_of(v) for z in walk(x)):
                bad = f"a new ensemble is given {show(v, 3)[:160]} as its {n}"
        if bad:
            r.fail(k, where(f), bad)
        elif seen or f.cls is not None and f.cls.name == "Ensemble":
            r.good(k)
    return r


# ---------------------------------------------------------------- a draw leaves no seed behind
@memo
def no_seed_left(w):
    r = Result("no-state-left", "a draw leaves no random state behind in the distribution for the next one")
    for k, f in functions(w):
        if k not in w.R.funcs or f.name == "__init__":
            continue
        s, rs = summ(w, f), summ(w, w.R.funcs[k], w.R)
        if s is None or rs is None:
            continue
        old = {n for _, n in rs.attrs}
        bad = next((f"sets {show(b, 3)}.{n} to {show(w.canon(v), 3)[:120]}" for (b, n), v in s.attrs.items() if n in ("random_state", "_random_state") and n not in old and
                    not (w.canon(v).op == "attr" and w.canon(v).args[1] in ("random_state", "_random_state"))), None)
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- uniform numbers as they come
@memo
def uniform_kept(w):
    r = Result("uniform-as-drawn", "the uniform numbers behind the samples go through the inverse as they were drawn: none is left out, mirrored, sorted or rounded")
    for k, f in functions(w):
        if f.name != "_rvs" or f.cls is None or k not in w.R.funcs:
            continue
        s, rs = summ(w, f), summ(w, w.R.funcs[k], w.R)
        if s is None or rs is None:
            r.unknown(k, where(f), "not analysable")
            continue

        def worked(t):
            out = {}
            for x in walk(t):
                if x.op == "index" and drawn_of(x.args[0]) and any(z.op == "slice" and any(a is not NONE for a in z.args) for z in walk(x.args[1])):
                    out["slice"] = x
                elif x.op in ("add", "mul", "pow") and any(drawn_of(c) for c in x.args):
                    out[x.op] = x
                elif x.op == "call" and x.args[0] in REWORKED and any(drawn_of(c) for c in children(x)):
                    out[x.args[0]] = x
            return out
        old, cur = worked(w.canon(rs.ret)), worked(w.canon(s.ret))
        bad = next((f"the numbers drawn are worked over: {show(x, 4)[:160]}" for n, x in cur.items() if n not in old), None)
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


REWORKED = {"numpy." + n for n in "sort unique round rint floor ceil clip tile repeat concatenate minimum maximum flip resize".split()} | {"sorted", "round"}


def drawn_of(t):
    if t.op == "meth":
        return t.args[0] in ("uniform", "random", "random_sample") and any(z.op == "param" and "random" in z.args[0] for z in walk(t.args[1]))
    if t.op == "ite":
        return drawn_of(t.args[1]) or drawn_of(t.args[2])
    if t.op == "call" and t.args[0] in ("numpy.ravel", "numpy.asarray", "numpy.array", "numpy.reshape"):
        d = dict(t.args[2])
        v = t.args[1][0] if t.args[1] else d.get("a", d.get("object", NONE))
        return drawn_of(v)
    if t.op == "index":
        return drawn_of(t.args[0])
    return False


# ---------------------------------------------------------------- one row does not stand for all
def row_tables(w, cls):
    """attributes of a generator class which hold one row per PDF, and those which start as None"""
    rows, late = set(), set()
    for c in w.U.mro(cls) if cls is not None else ():
        f = w.U.funcs.get(f"{getattr(c, 'name', c)}.__init__")
        s = summ(w, f) if f is not None else None
        if s is None:
            continue
        for (base, name), v in s.attrs.items():
            if base is not SELF:
                continue
            if v is NONE:
                late.add(name)
            elif any(z.op == "icall" and z.args[0] == "reshape_to_pdf_size" for z in outcomes(v, [])):
                rows.add(name)
    return rows, late


@memo
def own_rows(w):
    r = Result("row-by-row", "the values of a PDF are worked out from the rows asked for, never from the first or last row in the place of all")
    for k, f in functions(w):
        if f.cls is None or f.name not in ("_pdf", "_cdf", "_ppf", "_sf", "_isf", "_munp", "_rvs"):
            continue
        s, rf = summ(w, f), w.R.funcs.get(k)
        rs = summ(w, rf, w.R) if rf is not None else None
        if s is None or rs is None:
            continue
        rows, _ = row_tables(w, f.cls)
        if not rows:
            continue

        def fixed(t):
            out = set()
            for x in walk(t):
                if x.op == "index" and x.args[0].op == "attr" and x.args[0].args[0] is SELF and x.args[0].args[1] in rows:
                    i = x.args[1].args[0] if x.args[1].op == "tuple" and x.args[1].args else x.args[1]
                    if is_const(i) and i.args[0] == "int":
                        out.add(x)
            return out
        n = fixed(s.ret) - fixed(rs.ret)
        if n:
            r.fail(k, where(f), f"{show(sorted(n, key=repr)[0], 3)} is used whatever rows are asked for")
        else:
            r.good(k)
    return r


@memo
def no_cache_among_settings(w):
    r = Result("settings-without-cache", "what a generator hands on as its constructor's arguments does not depend on what it has worked out so far")
    for k, f in functions(w):
        if f.cls is None or f.name not in ("_updated_ctor_param", "objdata", "metadata", "_addobjdata", "_addmetadata"):
            continue
        s, rf = summ(w, f), w.R.funcs.get(k)
        rs = summ(w, rf, w.R) if rf is not None else None
        if s is None or rs is None:
            continue
        _, late = row_tables(w, f.cls)

        def kept(t):
            return {z.args[1] for z in walk(t) if z.op == "attr" and z.args[0] is SELF and z.args[1] in late}
        n = kept(s.ret) - kept(rs.ret)
        if n:
            r.fail(k, where(f), f"depends on {', '.join(sorted(n))}, which is filled by the first query")
        else:
            r.good(k)
    return r


for _p in ("C02", "C03"):
    use(_p, in_cone(made_again)(_p))
for _p in ("C07", "C08", "C09", "C10"):
    use(_p, in_cone(own_rows)(_p))
for _p in ("C01", "C06", "C14"):
    use(_p, in_cone(no_cache_among_settings)(_p))
use("C05", in_cone(rows_checked)("C05"))
use("C01", in_cone(as_given)("C01"))
use("C08", in_cone(point_alone)("C08"))
use("C16", in_cone(as_many)("C16"))
use("C07", in_cone(built_first)("C07"))
use("C07", in_cone(tables_first)("C07"))
use("C13", in_cone(version_stored)("C13"))
for _p in ("C11", "C22"):
    use(_p, in_cone(cut_where_found)(_p))
use("C25", in_cone(shapes_decoded)("C25"))
use("C03", in_cone(all_joined)("C03"))
for _p in ("C02", "C03", "C04", "C05"):
    use(_p, in_cone(uncut)(_p))
use("C10", in_cone(one_divisor)("C10"))
use("C14", in_cone(chunk_alone)("C14"))
use("C19", in_cone(whole_tree)("C19"))
use("C25", in_cone(rounded)("C25"))
use("C12", in_cone(first_kept)("C12"))
for _p in ("C02", "C03", "C14"):
    use(_p, in_cone(starts_empty)(_p))
for _p in ("C16",):
    use(_p, in_cone(no_seed_left)(_p))
    use(_p, in_cone(uniform_kept)(_p))

ALL = ("tables_first", "version_stored", "cut_where_found", "shapes_decoded", "all_joined", "own_rows", "no_cache_among_settings", "rows_checked", "as_given", "point_alone", "as_many", "built_first", "whole_tree", "rounded", "first_kept", "starts_empty", "no_seed_left", "uniform_kept", "made_again", "uncut", "one_divisor", "chunk_alone")
