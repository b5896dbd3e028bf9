"""Rules for single clauses: each looks at the shape a clause needs (one key for every column, every row in exactly one
chunk, sums before ratios, ...) wherever the analysed tree has it, and needs no accepted definition."""
import ast

from .rules import Result, where, functions, summ, flat_events, leaves_of, literals, use, in_cone, SELF
from .source import Cls
from .vocab import LAYOUT
from .terms import mk, const, cval, is_const, walk, show, children, NONE


def memo(fn):
    name = "_rule_" + fn.__name__
    def go(w, thorough=False):
        r = getattr(w, name, None)
        if r is None:
            r = fn(w)
            setattr(w, name, r)
        return r
    go.__name__ = fn.__name__
    return go


# ---------------------------------------------------------------- one container per pass of a loop
FRESH = {"dict", "list", "set", "OrderedDict", "defaultdict", "deque", "Counter"}
FILLS = {"update", "append", "setdefault", "extend", "insert", "add"}


def is_fresh(e):
    if isinstance(e, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        n = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        return n in FRESH
    return False


def names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def inside(body):
    for st in body:
        for n in ast.walk(st):
            yield n


def bound(n):
    """names a node binds"""
    out = set()
    if isinstance(n, ast.Assign):
        for t in n.targets:
            out |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)):
        out |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
    elif isinstance(n, (ast.For, ast.comprehension)):
        out |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
    elif isinstance(n, ast.withitem) and n.optional_vars is not None:
        out |= {x.id for x in ast.walk(n.optional_vars) if isinstance(x, ast.Name)}
    return out


@memo
def fresh(w):
    r = Result("fresh-per-pass", "a table that is filled during one pass of a loop and then yielded, stored or turned into an object in that pass is "
               "created in that pass: no pass sees what an earlier one left in it, and no two results share it")
    for k, f in functions(w):
        loops = [n for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.While))]
        if not loops:
            continue
        bad = None
        fresh_at = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and is_fresh(n.value):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        fresh_at.setdefault(t.id, []).append(n)
        for L in loops:
            nodes = set(inside(L.body))
            rebound = set()
            for n in nodes:
                if not (isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant)):
                    rebound |= bound(n)
            cleared = {n.func.value.id for n in nodes if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "clear"
                       and isinstance(n.func.value, ast.Name)}
            for v, made in fresh_at.items():
                if v in rebound or any(m in nodes for m in made):
                    continue
                filled = set()
                for n in nodes:
                    if isinstance(n, (ast.Assign, ast.AugAssign)):
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == v:
                                filled.add(n)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in FILLS and \
                            isinstance(n.func.value, ast.Name) and n.func.value.id == v:
                        filled.add(n)
                if not filled:
                    continue
                # values made from the table in this pass
                derived = {v}
                for _ in range(4):
                    for n in nodes:
                        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Call, ast.Name, ast.Tuple, ast.Dict, ast.IfExp)) and names(n.value) & derived and \
                                n not in filled and handed(n.value, derived):
                            derived |= {t.id for t in n.targets if isinstance(t, ast.Name)}
                for n in nodes:
                    out = None
                    if isinstance(n, ast.Yield) and n.value is not None and handed(n.value, derived):
                        out = "yielded"
                    elif isinstance(n, ast.Assign) and n not in filled and any(isinstance(t, (ast.Subscript, ast.Attribute)) for t in n.targets) and handed(n.value, derived):
                        out = "stored"
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in FILLS and n not in filled and \
                            any(handed(a, derived) for a in n.args):
                        out = "stored"
                    if out and not (v in cleared and out_is_copy(n)):
                        bad = f"{v}, created before the loop at line {L.lineno} and filled inside it, is {out} in every pass (line {n.lineno})"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


READERS = {"len", "sum", "min", "max", "sorted", "isinstance", "print", "str", "any", "all", "enumerate", "zip", "range", "set", "tuple", "bool", "list", "dict"}


def out_is_copy(n):
    return False


def handed(e, derived):
    """the expression's value holds (or is made by a function given) one of the derived tables"""
    if isinstance(e, ast.Name):
        return e.id in derived
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return any(handed(x, derived) for x in e.elts)
    if isinstance(e, ast.Dict):
        return any(handed(x, derived) for x in e.values)
    if isinstance(e, ast.IfExp):
        return handed(e.body, derived) or handed(e.orelse, derived)
    if isinstance(e, ast.Starred):
        return handed(e.value, derived)
    if isinstance(e, ast.Call):
        n = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        mod = isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ("np", "numpy")
        if n in READERS or mod:
            return False
        return any(handed(a, derived) for a in e.args) or any(handed(x.value, derived) for x in e.keywords)
    return False


# ---------------------------------------------------------------- the chunks partition the rows
@memo
def partition(w):
    r = Result("row-partition", "the row ranges of a chunked reader are those of data_ranges_by_rank for the whole number of rows in the file, the reader's "
               "rank and the number of readers as given, every column is cut with exactly those bounds, and they are what the reader reports")
    for k, f in functions(w):
        s = summ(w, f)
        if s is None:
            continue
        evs = [w.canon(e) for _, e in flat_events(s)]
        ranges = {x for e in evs + [s.ret] for x in walk(e) if x.op == "call" and isinstance(x.args[0], str) and x.args[0].endswith("data_ranges_by_rank")}
        if not ranges:
            if any(isinstance(n, ast.Attribute) and n.attr == "data_ranges_by_rank" for n in ast.walk(f.node)):
                r.unknown(k, where(f), "the row ranges could not be followed")
            continue
        bad = None
        for c in ranges:
            d = dict(zip(("n", "chunk", "size", "rank"), c.args[1]))
            alias = {"num_rows": "n", "tot_size": "n", "total_rows": "n", "chunk_size": "chunk", "parallel_size": "size", "rank": "rank"}
            d.update({alias.get(a, a): v for a, v in c.args[2]})
            n = d.get("n", NONE)
            if any(x.op in ("add", "mul", "pow", "floordiv", "mod", "ite") for x in top(n)):
                bad = f"the number of rows shared out is {show(n, 6)[:200]}, not the number of rows of the file"
            elif n.op not in ("call", "smeth", "icall", "meth", "len", "param"):
                r.unknown(k, where(f), f"number of rows {show(n, 4)}")
            for role, name in (("size", "parallel_size"), ("rank", "rank")):
                v = d.get(role)
                if v is None or v.op == "const":
                    bad = bad or f"{name} does not reach the row ranges"
                elif v is d.get({"size": "rank", "rank": "size"}[role]):
                    bad = bad or f"{name} and its counterpart are the same value {show(v, 3)}"
                elif v.op != "param":
                    bad = bad or f"{name} reaches the row ranges as {show(v, 4)[:120]}"
        lo = hi = None
        for e in evs:
            for x in walk(e):
                if x.op == "call" and isinstance(x.args[0], str) and x.args[0].endswith("readHdf5DatasetToArray"):
                    d = dict(zip(("dataset", "start", "end"), x.args[1]))
                    d.update(dict(x.args[2]))
                    a, b = d.get("start"), d.get("end")
                    if a is None or b is None:
                        bad = bad or f"a column is read whole in every chunk: {show(x, 4)[:160]}"
                        continue
                    if not (bare(a, ranges, 0) and bare(b, ranges, 1)):
                        bad = bad or f"a column is cut with {show(a, 4)[:80]} … {show(b, 4)[:80]}, not with the bounds of the chunk"
        if bad:
            r.fail(k, where(f), bad)
        elif not any(c == k for c, _, _ in r.open):
            r.good(k)
    if not r.instances:
        r.broken = None
    return r


def top(t):
    """the arithmetic above the first call"""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        out.append(x)
        if x.op in ("add", "mul", "pow", "ite", "floordiv", "mod", "el"):
            todo.extend(children(x))
    return out


def bare(t, ranges, i):
    """t is element i of an element of the row ranges"""
    return t.op == "index" and t.args[1] is const(i) and t.args[0].op == "index" and t.args[0].args[0] in ranges


# ---------------------------------------------------------------- one key for every column
REARRANGES = {"numpy.unique", "numpy.sort", "sorted", "set", "frozenset", "numpy.abs", "numpy.clip", "numpy.flip", "reversed", "numpy.mod", "numpy.roll"}


SHAPERS = {"reshape", "ravel", "flatten", "squeeze", "sort", "unique", "flip", "transpose", "resize", "swapaxes"}


@memo
def same_key(w):
    r = Result("one-key", "indexing an ensemble cuts the distribution's columns and the ancillary columns with the very same key, the caller's")
    for k, f in functions(w):
        if f.name == "slice_dict" and f.cls is None:
            s = summ(w, f)
            if s is None:
                r.unknown(k, where(f), "not analysable")
                continue
            bad, some = None, False
            for x in walk(w.canon(s.ret)):
                if x.op not in ("kv", "setitem"):
                    continue
                for path, leaf in leaves_of(x.args[-1]):
                    cut = any(z.op == "param" and z.args[0] == "subslice" for z in walk(leaf))
                    some = some or cut
                    for z in walk(leaf) if cut else ():
                        if z.op in ("call", "meth") and str(z.args[0]).split(".")[-1] in SHAPERS and any(q.op == "index" and any(u.op == "param" and u.args[0] == "subslice" for u in walk(q)) for q in walk(z)):
                            bad = f"the cut column is changed once more: {show(z, 4)[:140]}"
                    if not cut:
                        for c, _ in literals(path):
                            if c.op in ("lt", "le", "eq") and any(z.op in ("shape", "size", "len", "ndim", "dim") for z in walk(c)) and \
                                    not any(z.op in ("exc", "isinst") for z in walk(c)):
                                bad = f"a column is handed on whole when {show(c, 5)[:120]}"
            for path, leaf in leaves_of(w.canon(s.ret)):
                if leaf.op == "param" and leaf.args[0] == "in_dict" or leaf.op == "dict" and len(leaf.args) == 1 and leaf.args[0].op == "rest" and leaf.args[0].args[0].op == "param":
                    for c, _ in literals(path):
                        if c.op in ("lt", "le", "eq") and any(z.op in ("size", "len", "dim", "shape") and any(q.op == "param" and q.args[0] == "subslice" for q in walk(z)) for z in walk(c)):
                            bad = f"the table is handed on whole when {show(c, 5)[:120]}"
            if bad:
                r.fail(k, where(f), bad)
            elif some:
                r.good(k)
            else:
                r.unknown(k, where(f), "no column is cut here")
            continue
        if f.name != "__getitem__" or f.cls is None:
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        pos = [a.arg for a in f.node.args.args][1:]
        if not pos:
            continue
        settings_cut = None
        cuts = {}
        C = w.canon
        for t in [C(s.ret)] + [C(e) for _, e in flat_events(s)]:
            for x in walk(t):
                if x.op == "icall" and x.args[0] == "slice_dict":
                    d = dict(x.args[1])
                    cuts[x] = (d.get("in_dict"), d.get("subslice"))
                elif x.op == "index" and x.args[1].op == "param":
                    cuts[x] = (x.args[0], x.args[1])
                if x.op == "index" and x.args[1].op in ("param", "tuple") and any(z.op == "param" and z.args[0] == pos[0] for z in walk(x.args[1])) and \
                        any(z.op in ("smeth", "meth") and z.args[0] == "metadata" or z.op == "attr" and z.args[1] == "metadata" for z in walk(x.args[0])):
                    settings_cut = x
        if settings_cut is not None:
            r.fail(k, where(f), f"a setting, which is the same for all rows, is cut with the key: {show(settings_cut, 5)[:140]}")
            continue
        if not cuts:
            r.unknown(k, where(f), "no column is cut here")
            continue
        keys = {v for _, v in cuts.values()}
        bad = None
        if len(keys) > 1:
            bad = "columns are cut with different keys: " + "; ".join(sorted(f"{show(a, 3)[:60]} with {show(b, 5)[:120]}" for a, b in cuts.values()))
        elif any(x.op == "call" and x.args[0] in REARRANGES for y in keys for x in walk(y)):
            bad = "the caller's key is rearranged before it is used: " + "; ".join(sorted(show(y, 5)[:140] for y in keys))
        elif any(x.op == "index" and x.args[1].op == "slice" and not all(a is NONE for a in x.args[1].args) and any(z.op == "param" for z in walk(x.args[0])) for y in keys for x in walk(y)):
            bad = "part of the caller's key is used: " + "; ".join(sorted(show(y, 5)[:140] for y in keys))
        elif not any(x.op == "param" for x in walk(next(iter(keys)))):
            bad = f"columns are cut with {show(next(iter(keys)), 4)}, which is not the caller's key"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- sums first, ratios last
LINEAR = {"numpy.atleast_1d", "numpy.atleast_2d", "numpy.asarray", "numpy.array", "numpy.squeeze", "numpy.ravel", "numpy.transpose", "numpy.vstack", "numpy.stack",
          "numpy.concatenate", "numpy.hstack", "zip", "list", "tuple", "numpy.column_stack", "numpy.reshape", "numpy.float64", "float"}
SUMS = {"numpy.sum", "sum", "numpy.add.reduce", "math.fsum", "numpy.nansum"}
RAW, TOTAL, FREE = "partial", "total", "free"


def stage(t, raw, bad, memo_):
    """how a value of finalize depends on the list of partial results"""
    if t in memo_:
        return memo_[t]
    memo_[t] = FREE
    if t in raw:
        out = RAW
    else:
        kids = [(c, stage(c, raw, bad, memo_)) for c in children(t)]
        parts = [c for c, s in kids if s == RAW]
        if not parts:
            out = TOTAL if any(s == TOTAL for _, s in kids) else FREE
        elif t.op == "call" and t.args[0] in SUMS:
            ax = dict(t.args[2]).get("axis", t.args[1][1] if len(t.args[1]) > 1 else NONE)
            out = TOTAL
        elif t.op == "meth" and t.args[0] == "sum":
            out = TOTAL
        elif t.op in ("fold", "reduce"):
            out = TOTAL
        elif t.op in ("tuple", "list", "el", "many", "index", "expand", "attr", "slice", "seq", "len", "key", "zip", "kv", "shape", "bv"):
            out = RAW if t.op not in ("len", "shape") else FREE
        elif t.op == "meth" and t.args[0] in ("T", "reshape", "transpose", "ravel", "squeeze", "astype", "copy"):
            out = RAW
        elif t.op == "call" and t.args[0] in LINEAR:
            out = RAW
        elif t.op == "add":
            out = RAW
        elif t.op == "mul" and len(parts) == 1 and not any(s == RAW for c, s in kids if c is not parts[0]):
            out = RAW if not (t.args and any(c.op == "pow" and stage(c, raw, bad, memo_) == RAW for c in children(t))) else RAW
        elif t.op == "ite":
            out = RAW
        elif t.op in ("mul", "pow"):
            bad.append(f"partial results are multiplied or divided before they are added up: {show(t, 5)[:200]}")
            out = RAW
        elif t.op == "call" and isinstance(t.args[0], str) and t.args[0] in (
                "numpy.mean", "numpy.average", "numpy.median", "numpy.max", "numpy.min", "max", "min", "numpy.std", "numpy.var", "numpy.prod", "numpy.nanmean",
                "numpy.sqrt", "numpy.abs", "abs", "numpy.log", "numpy.exp", "statistics.mean", "numpy.cumsum", "numpy.unique", "set"):
            bad.append(f"{t.args[0]} is taken over the partial results of the chunks: {show(t, 5)[:200]}")
            out = TOTAL
        elif t.op == "meth" and t.args[0] in ("mean", "std", "var", "max", "min", "prod"):
            bad.append(f"{t.args[0]}() is taken over the partial results of the chunks: {show(t, 5)[:200]}")
            out = TOTAL
        else:
            out = RAW
    memo_[t] = out
    return out


@memo
def finaliser(w):
    r = Result("sum-then-ratio", "a metric combines the partial results of its chunks only by adding them up (or merging the digests) before anything that is not "
               "additive is done to them, and uses all of them")
    for k, f in functions(w):
        if f.name != "finalize" or f.cls is None:
            continue
        pos = [a.arg for a in f.node.args.args][1:]
        s = summ(w, f)
        if s is None or not pos:
            continue
        raw = {mk("param", p) for p in pos}
        bad = []
        t = w.canon(s.ret)
        if t.op in ("raised", "raise"):
            continue
        if not any(x in raw for x in walk(t)):
            r.fail(k, where(f), "the partial results are not used")
            continue
        for x in walk(t):
            if x.op == "index" and x.args[0] in raw and is_const(x.args[1]):
                bad.append(f"only the partial result {show(x.args[1])} is used")
            elif x.op == "index" and x.args[0] in raw and x.args[1].op == "slice" and any(not is_const(a) or a is not NONE for a in x.args[1].args):
                bad.append(f"only part of the partial results is used: {show(x, 4)}")
        stage(t, raw, bad, {})
        if bad:
            r.fail(k, where(f), bad[0])
        else:
            r.good(k)
    return r


@memo
def additive(w):
    r = Result("additive-partials", "what a metric reports for one chunk is a tuple of sums and counts (or a digest), never an average")
    for k, f in functions(w):
        if f.name != "accumulate" or f.cls is None:
            continue
        s = summ(w, f)
        if s is None:
            continue
        fin = w.U.find_method(f.cls, "finalize")
        t = w.canon(s.ret)
        if t.op != "tuple":
            continue
        bad = None
        for x in t.args:
            x = x.args[0] if x.op == "el" else x
            for _, leaf in leaves_of(x):
                if not any(z.op == "param" and z.args[0] != "self" for z in walk(leaf)) and not any(z.op in ("carried", "mu", "exc") for z in walk(leaf)):
                    bad = f"a chunk reports {show(leaf, 4)[:120]}, which does not depend on the chunk"
                for y in top(leaf):
                    if y.op == "call" and y.args[0] in ("numpy.mean", "numpy.average", "numpy.median", "numpy.nanmean") or y.op == "meth" and y.args[0] in ("mean",):
                        bad = f"a chunk reports an average: {show(leaf, 5)[:200]}"
                    elif y.op == "pow" and y.args[1] is const(-1):
                        bad = f"a chunk reports a ratio: {show(leaf, 5)[:200]}"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- randomness
GLOBAL_RNG = {"seed", "random", "rand", "randn", "uniform", "normal", "choice", "randint", "shuffle", "permutation", "standard_normal", "multivariate_normal",
              "exponential", "beta", "gamma", "poisson", "random_sample", "set_state", "get_state", "sample", "gauss", "random_integers", "triangular", "lognormal"}
STATE_DRAWS = {"randint", "integers", "random", "random_sample", "rand", "bytes", "uniform", "choice", "spawn"}
MAKERS = {"RandomState", "default_rng", "Generator", "SeedSequence", "PCG64", "MT19937", "Random"}
DRAWS = {"rvs", "anderson_ksamp", "resample"}


@memo
def rng(w):
    r = Result("caller's-randomness", "no module draws from or seeds the global random generators; a generator made inside the library is made from the caller's "
               "random state; every draw is given the caller's random state where the function has one")
    for mn, m in sorted(w.U.modules.items()):
        alias = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name in ("random", "numpy.random"):
                        alias[a.asname or a.name.split(".")[0]] = a.name
            elif isinstance(n, ast.ImportFrom) and n.module in ("numpy.random", "random"):
                for a in n.names:
                    alias[a.asname or a.name] = n.module + "." + a.name
            elif isinstance(n, ast.ImportFrom) and n.module == "numpy" and any(a.name == "random" for a in n.names):
                for a in n.names:
                    if a.name == "random":
                        alias[a.asname or "random"] = "numpy.random"
        owner = {}
        for fk, f in w.U.funcs.items():
            if f.module is m:
                for n in ast.walk(f.node):
                    owner[n] = f
        sites = {}
        for n in ast.walk(m.tree):
            if not isinstance(n, (ast.Call, ast.Attribute)):
                continue
            e = n.func if isinstance(n, ast.Call) else n
            d = dotted(e, alias)
            if d is None:
                continue
            fn = d.rsplit(".", 1)[1] if "." in d else d
            f = owner.get(n)
            key = f.key if f is not None else mn + ":<module>"
            at = f"{m.path}:{n.lineno}"
            if fn in GLOBAL_RNG and not (isinstance(n, ast.Attribute) and d in ("numpy.random", "random")):
                sites.setdefault(key, []).append((at, f"uses the global random generator: {ast.unparse(n)[:100]}"))
            elif isinstance(n, ast.Call) and fn in MAKERS:
                used = names_of_args(n)
                prm = {a.arg for a in (f.node.args.args + f.node.args.kwonlyargs)} if f is not None else set()
                if f is None:
                    pass        # a private generator of the module
                elif not any("random" in u or "seed" in u or "rng" in u for u in used):
                    sites.setdefault(key, []).append((at, f"makes its own random generator, not from the caller's random state: {ast.unparse(n)[:100]}"))
                elif any(isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr in STATE_DRAWS for a in list(n.args) + [z.value for z in n.keywords]
                         for q in ast.walk(a)):
                    sites.setdefault(key, []).append((at, f"draws from a generator of its own in place of the caller's random state: {ast.unparse(n)[:100]}"))
        for key in sorted({f.key for f in w.U.funcs.values() if f.module is m} | {mn + ":<module>"}):
            if key in sites:
                r.fail(key, sites[key][0][0], sites[key][0][1])
            else:
                r.good(key)
    for k, f in functions(w):
        s = summ(w, f)
        if s is None:
            continue
        C = w.canon
        a = f.node.args
        has = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if "random_state" in x.arg]
        for t in [s.ret] + list(s.attrs.values()) + [e for _, e in flat_events(s)]:
            for x in walk(C(t)):
                if x.op == "meth" and x.args[0] == "rvs":
                    kw = dict(x.args[3])
                    v = kw.get("random_state")
                    if v is None and len(x.args[2]) < 2 and (has or a.kwarg is not None) and not any(kk == "**" for kk in kw):
                        r.fail(k, where(f), f"draws without the caller's random state: {show(x, 4)[:160]}")
                    elif v is not None and is_const(v) and v is not NONE:
                        r.fail(k, where(f), f"draws with a fixed random state: {show(x, 4)[:160]}")
    return r


def dotted(e, alias):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    parts.append(e.id)
    parts.reverse()
    if parts[:2] in (["np", "random"], ["numpy", "random"]):
        return "numpy.random." + ".".join(parts[2:]) if len(parts) > 2 else "numpy.random"
    if parts[0] in alias:
        return ".".join([alias[parts[0]]] + parts[1:])
    return None


def names_of_args(n):
    return {x.id for a in list(n.args) + [k.value for k in n.keywords] for x in ast.walk(a) if isinstance(x, ast.Name)} | \
        {x.attr for a in list(n.args) + [k.value for k in n.keywords] for x in ast.walk(a) if isinstance(x, ast.Attribute)} | \
        {x.value for a in list(n.args) + [k.value for k in n.keywords] for x in ast.walk(a) if isinstance(x, ast.Constant) and isinstance(x.value, str)}


# ---------------------------------------------------------------- quantiles invert the cumulative table
@memo
def inverse(w):
    r = Result("inverse-table", "a tabulated quantile function interpolates the table its cumulative distribution interpolates, with positions and probabilities "
               "exchanged, the same row and the same kind of interpolation")
    for ck, c in sorted(w.U.classes.items()):
        own = [n for n in ("_cdf", "_ppf") if n in c.methods]
        if not own:
            continue
        fs = [w.U.find_method(c, n) for n in ("_cdf", "_ppf")]
        if any(f is None or isinstance(f, tuple) for f in fs):
            continue
        tabs = []
        for f in fs:
            s = w.summary(w.U, f, c)
            if isinstance(s, Exception):
                tabs.append(None)
                continue
            found = {x for _, leaf in leaves_of(w.canon(s.ret)) for x in walk(leaf) if x.op == "icall" and str(x.args[0]).startswith("interpolate_")}
            tabs.append([dict(x.args[1]) for x in found])
        if not all(tabs) or any(len(t) != 1 for t in tabs):
            continue
        a, b = tabs[0][0], tabs[1][0]
        bad = None
        if a.get("xvals") is None or b.get("xvals") is None:
            continue
        if not (a["xvals"] is b.get("yvals") and a["yvals"] is b.get("xvals")):
            bad = (f"_cdf interpolates {show(a['xvals'], 3)[:80]} -> {show(a['yvals'], 3)[:80]}, "
                   f"_ppf interpolates {show(b['xvals'], 3)[:80]} -> {show(b['yvals'], 3)[:80]}")
        elif a.get("row") is not b.get("row") and not (a.get("row") is not None and b.get("row") is not None and a["row"].op == b["row"].op == "param"):
            bad = f"_cdf looks at row {show(a.get('row', NONE), 3)}, _ppf at row {show(b.get('row', NONE), 3)}"
        elif a.get("kind", NONE) is not b.get("kind", NONE):
            bad = f"_cdf interpolates with kind {show(a.get('kind', NONE), 3)}, _ppf with {show(b.get('kind', NONE), 3)}"
        k = fs[1].key
        if bad:
            r.fail(k, where(fs[1]), bad)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- outside the table
@memo
def fills(w):
    r = Result("out-of-range", "every table lookup of a density, cumulative or quantile function accepts points outside the table and answers them with zero, "
               "(0, 1) and the ends of the distribution's range respectively")
    want = {"_pdf": "0", "_cdf": "(0, 1)", "_ppf": "the ends"}
    for ck, c in sorted(w.U.classes.items()):
        for n in want:
            f = c.methods.get(n)
            if f is None:
                continue
            s = summ(w, f)
            if s is None:
                continue
            found = {x for x in walk(w.canon(s.ret)) if x.op == "icall" and str(x.args[0]).startswith("interpolate_")}
            if not found:
                continue
            bad = None
            for x in found:
                d = dict(x.args[1])
                fv, be = d.get("fill_value"), d.get("bounds_error")
                if be is not None and is_const(be) and cval(be) is not False or fv is None:
                    bad = f"a point outside the table is refused: {show(x, 3)[:120]}"
                elif n == "_pdf" and not (is_const(fv) and cval(fv) == 0 or fv.op == "tuple" and all(is_const(strip(y)) and cval(strip(y)) == 0 for y in fv.args)):
                    bad = f"the density outside the table is {show(fv, 4)[:80]}"
                elif n == "_cdf" and not (fv.op == "tuple" and [cval(strip(y)) if is_const(strip(y)) else None for y in fv.args] == [0, 1]):
                    bad = f"the cumulative probability outside the table is {show(fv, 4)[:80]}"
                elif n == "_ppf" and fv.op == "tuple" and len(fv.args) == 2:
                    lo, hi = (strip(y) for y in fv.args)
                    if is_const(lo) or is_const(hi) or lo is hi:
                        bad = f"the quantiles outside the table are {show(fv, 4)[:80]}"
                    elif looks(lo, "max") or looks(hi, "min"):
                        bad = f"the quantiles outside the table are exchanged: {show(fv, 4)[:80]}"
                elif n == "_ppf":
                    bad = f"the quantiles outside the table are {show(fv, 4)[:80]}"
            if bad:
                r.fail(f.key, where(f), bad)
            else:
                r.good(f.key)
    return r


def strip(t):
    return t.args[0] if t.op == "el" else t


def looks(t, word):
    return t.op == "attr" and t.args[1].endswith(word)


# ---------------------------------------------------------------- settings that survive
COMPUTED = {"lt", "eq", "and", "or", "add", "mul", "pow", "mod", "floordiv", "getdef"}


def entries_of(t):
    """entries of a table -> {name: values}, {name: condition} for the entries which are there in some cases only"""
    out, some = {}, {}
    conditional = set()
    for x in walk(t):
        if x.op == "g" and len(x.args) == 2 and x.args[1].op == "kv":
            k = x.args[1].args[0]
            if is_const(k) and isinstance(cval(k), str):
                some[cval(k)] = x.args[0]
                conditional.add(x.args[1])
    for x in walk(t):
        if x.op in ("kv", "setitem"):
            kk, v = (x.args[0], x.args[1]) if x.op == "kv" else (x.args[1], x.args[2])
            if is_const(kk) and isinstance(cval(kk), str):
                out.setdefault(cval(kk), set()).add(v)
                if x.op == "kv" and x not in conditional:
                    some.pop(cval(kk), None)
    return out, some


def taken_keywords(init):
    """names read out of **kwargs by a constructor"""
    kw = init.node.args.kwarg
    if kw is None:
        return []
    out = []
    for n in ast.walk(init.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "get") and isinstance(n.func.value, ast.Name) and \
                n.func.value.id == kw.arg and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            out.append(n.args[0].value)
    return out


@memo
def settings(w):
    r = Result("settings-handed-on", "every named argument of a parameterisation's constructor is handed on under its own name by _updated_ctor_param, is stored with "
               "the ensemble's tables, and the two agree on the attribute it comes from")
    base = w.U.classes.get("Pdf_rows_gen")
    for ck, c in sorted(w.U.classes.items()):
        if c is base or base is None or base not in w.U.mro(c):
            continue
        init, upd = c.methods.get("__init__"), w.U.find_method(c, "_updated_ctor_param")
        if init is None or not isinstance(upd, type(init)):
            continue
        a = init.node.args
        prm = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]
        su, si = w.summary(w.U, upd, c), w.summary(w.U, init, c)
        if isinstance(su, Exception) or isinstance(si, Exception):
            r.unknown(upd.key, where(upd), "not analysable")
            continue
        handed_on, sometimes = entries_of(w.canon(su.ret))
        ru = w.R.find_method(w.R.classes[ck], "_updated_ctor_param") if ck in w.R.classes else None
        rs = w.summary(w.R, ru, w.R.classes[ck]) if isinstance(ru, type(init)) else None
        accepted, at_times = entries_of(w.canon(rs.ret)) if rs is not None and not isinstance(rs, Exception) else ({}, set())
        # arguments taken out of the keywords which the accepted definition hands on
        prm = prm + [n for n in taken_keywords(init) if n in accepted and n not in prm]
        stored = {}
        keeps = [init]
        for n in ast.walk(init.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                g = w.U.find_method(c, n.func.attr)
                if isinstance(g, type(init)) and g not in keeps:
                    keeps.append(g)
        for g in keeps:
            for n in ast.walk(g.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("_addmetadata", "_addobjdata") and n.args:
                    if isinstance(n.args[0], ast.Constant):
                        stored.setdefault(n.args[0].value, []).append(n)
                    else:
                        stored.setdefault("*", []).append(n)
        bad = None
        for p in prm:
            if p not in handed_on:
                bad = bad or f"the setting {p} is not handed on"
            elif not any(any(y.op == "attr" and y.args[0] is SELF or y.op in ("smeth", "ite") for y in walk(v)) for v in handed_on[p]):
                bad = bad or f"the setting {p} is handed on as {show(next(iter(handed_on[p])), 4)[:80]}, not as the value in force"
            elif any((is_const(z) and z is not NONE or z.op in ("enum", "gref")) for v in handed_on[p] if v.op == "ite" for _, z in leaves_of(v)) and \
                    not any(is_const(z) or z.op in ("enum", "gref") for v in accepted.get(p, ()) for _, z in leaves_of(v)):
                bad = bad or f"the setting {p} is in some case handed on as a fixed value: {show(next(iter(handed_on[p])), 4)[:90]}"
            elif p in sometimes and p not in at_times:
                bad = bad or f"the setting {p} is handed on in some cases only: when {show(sometimes[p], 5)[:80]}"
            elif p in accepted and not any(k in sometimes for k in (p, "*")):
                known = {y.args[0] if y.op == "call" else y.op for v in accepted[p] for y in walk(v)}
                for v in handed_on[p]:
                    odd = [y for y in walk(v) if y.op in COMPUTED and y.op not in known or y.op == "call" and isinstance(y.args[0], str) and
                           (y.args[0].startswith("numpy.") and y.args[0] not in LAYOUT or y.args[0] in ("min", "max", "sorted", "abs", "round", "sum")) and
                           y.args[0] not in known]
                    if odd:
                        bad = bad or f"the setting {p} is handed on as {show(v, 4)[:90]}, not as the value in force"
            if stored and "*" not in stored and p not in stored:
                bad = bad or f"the setting {p} is not stored with the tables"
        rc = w.R.classes.get(ck)
        for g in keeps:
            rg = w.R.find_method(rc, g.name) if rc is not None else None
            if not isinstance(rg, type(init)):
                continue
            for n in sorted(stored):
                if n != "*" and always_stores(rg.node.body, n) and not always_stores(g.node.body, n) and \
                        not any(h is not g and always_stores(h.node.body, n) for h in keeps):
                    bad = bad or f"the setting {n} is stored with the tables in some cases only"
        if bad:
            r.fail(upd.key, where(upd), bad)
        else:
            r.good(upd.key)
    return r


def stores(x, name):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("_addmetadata", "_addobjdata") and n.args and
               (not isinstance(n.args[0], ast.Constant) or n.args[0].value == name) for n in ast.walk(x))


def always_stores(body, name):
    """every way through these statements which does not raise stores the name (a loop over names is taken to)"""
    for st in body:
        if isinstance(st, ast.Raise):
            return True
        if isinstance(st, ast.Return):
            return False
        if isinstance(st, ast.If):
            if always_stores(st.body, name) and always_stores(st.orelse, name):
                return True
            if any(isinstance(x, ast.Return) for z in st.body + st.orelse for x in ast.walk(z)):
                # a way out: the name has to be stored on it
                for br in (st.body, st.orelse):
                    if any(isinstance(x, ast.Return) for z in br for x in ast.walk(z)) and not any(stores(z, name) for z in br):
                        return False
        elif isinstance(st, ast.Try):
            if always_stores(st.body + st.orelse, name) or always_stores(st.finalbody, name):
                return True
        elif stores(st, name):
            return True
    return False


# ---------------------------------------------------------------- conversion and creation
@memo
def pairing(w):
    r = Result("conversion-pairing", "class names are unique; for every method a class can be converted by, what is extracted is what the creation of that method takes: "
               "every name is one of its arguments, and every argument without a default is extracted")
    base = w.U.classes.get("Pdf_gen")
    seen = {}
    for ck, c in sorted(w.U.classes.items()):
        if base is None or c is base or base not in w.U.mro(c):
            continue
        nm = class_const(c, "name")
        if nm is not None:
            if nm in seen:
                r.fail(ck + ":<class>", f"{c.module.path}:{c.node.lineno}", f"has the name {nm!r} of {seen[nm]}")
            seen[nm] = ck
        f = c.methods.get("add_mappings")
        init = w.U.find_method(c, "__init__")
        if f is None or not hasattr(init, "node"):
            continue
        make, take = {}, {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("_add_creation_method", "_add_extraction_method"):
                args = list(n.args) + [x.value for x in n.keywords]
                if len(args) != 2 or not isinstance(args[1], ast.Constant):
                    continue
                (make if "creation" in n.func.attr else take).setdefault(args[1].value, (args[0], n))
        bad = None
        for m, (e, n) in sorted(take.items(), key=str):
            cr = make.get(m) or make.get(None)
            if cr is None:
                bad = bad or f"method {m!r} can be converted to but not created"
                continue
            ex = e.id if isinstance(e, ast.Name) else None
            r0 = w.U.resolve(c.module, ex) if ex else None
            g = next((x for x in w.U.funcs.values() if x.name == ex and x.cls is None), None)
            if g is None:
                continue
            s = summ(w, g)
            if s is None:
                continue
            given = None
            opaque = False
            for _, leaf in leaves_of(w.canon(s.ret)):
                if leaf.op in ("raised", "raise"):
                    continue
                if leaf.op != "dict":
                    opaque = True
                    continue
                ks = set()
                for y in leaf.args:
                    if y.op == "kv" and is_const(y.args[0]):
                        ks.add(cval(y.args[0]))
                    else:
                        opaque = True
                given = ks if given is None else given & ks
            if given is None:
                continue
            tgt = init
            cn = cr[0].attr if isinstance(cr[0], ast.Attribute) else None
            if cn and cn != "create":
                t2 = w.U.find_method(c, cn)
                if hasattr(t2, "node"):
                    tgt = t2
            a = tgt.node.args
            pos = [x.arg for x in a.posonlyargs + a.args][1:]
            need = set(pos[:len(pos) - len(a.defaults)]) | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
            extra = given - set(pos) - {x.arg for x in a.kwonlyargs} - {"name"}
            if extra and (tgt is init or a.kwarg is None):
                bad = bad or f"conversion by method {m!r} extracts {sorted(extra)[0]!r}, which {tgt.key} does not take"
            if need - given and not opaque:
                bad = bad or f"conversion by method {m!r} does not extract {sorted(need - given)[0]!r}, which {tgt.key} needs"
        if bad:
            r.fail(f.key, where(f), bad)
        else:
            r.good(f.key)
    return r


def class_const(c, name):
    for st in c.node.body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets) and isinstance(st.value, ast.Constant):
            return st.value.value
    return None


# ---------------------------------------------------------------- the catalogue of metrics
@memo
def catalogue(w):
    r = Result("metric-catalogue", "every metric is listed under a name no other metric has, and every kind of input is answered by exactly one of the two input "
               "questions for the estimate and at most one for the reference")
    base = w.U.classes.get("BaseMetric")
    seen = {}
    for ck, c in sorted(w.U.classes.items()):
        if base is None or c is base or base not in w.U.mro(c):
            continue
        nm = class_const(c, "metric_name")
        key = ck + ":<class>"
        at = f"{c.module.path}:{c.node.lineno}"
        if nm is None:
            inherited = next((class_const(b, "metric_name") for b in w.U.mro(c)[1:] if isinstance(b, Cls) and class_const(b, "metric_name")), None)
            if inherited:
                r.fail(key, at, f"has no name of its own and would take the place of {inherited!r} in the catalogue")
            continue
        listed = nm.replace("Metric", "")
        if not listed:
            r.fail(key, at, "is not listed: its name is empty")
        elif listed in seen:
            r.fail(key, at, f"is listed as {listed!r}, as is {seen[listed]}")
        else:
            r.good(key)
        seen[listed] = ck
    enum = w.U.classes.get("MetricInputType")
    if enum is not None:
        members = [t.id for st in enum.node.body if isinstance(st, ast.Assign) for t in st.targets if isinstance(t, ast.Name)]
        vals = [ast.unparse(st.value) for st in enum.node.body if isinstance(st, ast.Assign)]
        if len(set(vals)) != len(vals):
            r.fail("MetricInputType:<class>", f"{enum.module.path}:{enum.node.lineno}", "two kinds of input share a value and are therefore one")
        else:
            r.good("MetricInputType:<class>")
    out = w.U.classes.get("MetricOutputType")
    if out is not None:
        vals = [ast.unparse(st.value) for st in out.node.body if isinstance(st, ast.Assign)]
        if len(set(vals)) != len(vals):
            r.fail("MetricOutputType:<class>", f"{out.module.path}:{out.node.lineno}", "two kinds of output share a value and are therefore one")
        else:
            r.good("MetricOutputType:<class>")
    return r


# ---------------------------------------------------------------- distributions that change under an ensemble
@memo
def steady(w):
    r = Result("steady-distribution", "a distribution cannot be changed, through its public interface, in what its evaluation methods read: an ensemble keeps values it "
               "evaluated from it, and is not told")
    base = w.U.classes.get("Pdf_rows_gen")
    for ck, c in sorted(w.U.classes.items()):
        if base is None or base not in w.U.mro(c):
            continue
        reads = set()
        for n in ("_pdf", "_cdf", "_ppf", "_sf", "_isf", "_munp", "_logpdf", "_logcdf"):
            f = w.U.find_method(c, n)
            if hasattr(f, "node"):
                s = w.summary(w.U, f, c)
                if not isinstance(s, Exception):
                    reads |= {x.args[1] for t in [s.ret] + list(s.attrs.values()) for x in walk(t) if x.op == "attr" and x.args[0] is SELF}
        for f in list(c.methods.values()) + list(c.setters.values()):
            if f.name.startswith("_") or f.kind in ("class", "static", "property") and not f.setter:
                continue
            s = w.summary(w.U, f, c)
            if isinstance(s, Exception):
                continue
            given = {mk("param", x.arg) for x in f.node.args.args[1:]}
            hit = [a for (b, a), v in s.attrs.items() if b is SELF and a in reads and any(x in given for x in walk(v))]
            key = f.key
            if hit:
                r.fail(key, where(f), f"replaces self.{sorted(hit)[0]}, which the density is computed from, on a distribution an ensemble may have evaluated on a grid it keeps")
            else:
                r.good(key)
    return r


for _p in ("C03", "C13", "C14", "C17", "C22", "C25"):
    use(_p, in_cone(fresh)(_p))
use("C14", in_cone(partition)("C14"))
use("C02", in_cone(same_key)("C02"))
use("C17", in_cone(finaliser)("C17"))
use("C17", in_cone(additive)("C17"))
use("C16", in_cone(rng)("C16"))
use("C09", in_cone(inverse)("C09"))
use("C08", in_cone(fills)("C08"))
use("C01", in_cone(settings)("C01"))
use("C12", in_cone(pairing)("C12"))
use("C19", in_cone(catalogue)("C19"))
use("C22", in_cone(steady)("C22"))

ALL = ("fresh", "partition", "same_key", "finaliser", "additive", "rng", "inverse", "fills", "settings", "pairing", "catalogue", "steady")
