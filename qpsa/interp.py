"""Abstract interpreter: turns the syntax tree of a function into gated value-flow terms.

No program value is ever computed; every expression becomes a term describing how it is computed.
Branches are merged by gating, loops are summarised (comprehension, sum, fill, fold), private
helpers are inlined, library operations stay opaque."""
import ast
import builtins
from .terms import T, mk, const, cval, is_const, is_num, NONE, TRUE, FALSE, BOTTOM, walk
from .norm import (add, sub, mul, div, neg, power, truth, not_, and_, or_, lt, le, eq, isnone, ite, index,
                   dict_get, member, mkdict, kv, mklist, fstr, concat, fresh_tmp, bind, nsubst, is_bool, call)
from .source import Func, Cls

MAX_DEPTH = 8
MAX_NODES = 60000

ALLOC = {"numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.ndarray", "numpy.zeros_like",
         "numpy.ones_like", "numpy.empty_like", "numpy.full_like", "numpy.arange", "numpy.linspace", "numpy.array",
         "numpy.copy", "copy.copy", "copy.deepcopy"}
IGNORED_EVENTS = ("print", "logging.", "warnings.")
INPLACE_FUNCS = {"numpy.putmask", "numpy.copyto", "numpy.put", "numpy.place", "numpy.fill_diagonal",
                 "numpy.random.shuffle", "random.shuffle"}
OUT_AT = {"numpy." + n: 2 for n in "add subtract multiply divide true_divide power maximum minimum mod floor_divide logical_and logical_or".split()}
OUT_AT.update({"numpy." + n: 1 for n in "sqrt exp log log10 log2 abs absolute fabs square negative floor ceil rint logical_not".split()})
OUT_AT["numpy.clip"] = 3
INPLACE_METHODS = {"sort", "fill", "resize", "partition", "itemset", "setflags", "byteswap"}
DICT_MUT = {"update", "pop", "clear", "setdefault", "popitem"}
LIST_MUT = {"append", "extend", "insert", "remove", "reverse", "sort", "pop", "clear"}
VIEW_METHODS = {"reshape", "ravel", "squeeze", "swapaxes", "transpose", "view"}
# methods of this library whose result holds arrays that the object goes on using
SHARED_PARTS = {"objdata", "metadata", "gridded", "build_tables", "histogramize"}
VIEW_FUNCS = {"numpy.asarray", "numpy.reshape", "numpy.ravel", "numpy.squeeze", "numpy.atleast_1d",
              "numpy.atleast_2d", "numpy.expand_dims", "numpy.swapaxes", "numpy.transpose", "numpy.asanyarray",
              "numpy.moveaxis", "numpy.broadcast_to"}
BUILTINS = set(dir(builtins))


class Unsupported(Exception):
    pass


class Leaf:
    __slots__ = ("kind", "value", "st")

    def __init__(self, kind, value, st):
        self.kind, self.value, self.st = kind, value, st


class Br:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


def leaves(t, conds=()):
    if isinstance(t, Leaf):
        yield conds, t
    else:
        yield from leaves(t.a, conds + (t.c,))
        yield from leaves(t.b, conds + (not_(t.c),))


class Frame:
    def __init__(self, func, module, cls, depth, closure=None, level=0):
        self.func, self.module, self.cls, self.depth = func, module, cls, depth
        self.closure = closure
        self.self_name = None
        self.self_term = None


class State:
    __slots__ = ("env", "heap", "attrs", "events", "fr")

    def __init__(self, fr):
        self.env, self.heap, self.attrs, self.events, self.fr = {}, {}, {}, [], fr

    def copy(self):
        s = State(self.fr)
        s.env, s.heap, s.attrs, s.events = dict(self.env), dict(self.heap), dict(self.attrs), list(self.events)
        return s

    def become(self, o):
        self.env, self.heap, self.attrs, self.events = o.env, o.heap, o.attrs, o.events


def merge_layers(c, a, b):
    """gate two layer sequences sharing a prefix"""
    n = 0
    while n < len(a) and n < len(b) and a[n] is b[n]:
        n += 1
    ra, rb = list(a[n:]), list(b[n:])
    out = list(a[:n])
    # same key / single element on both sides
    if len(ra) == len(rb) and all(x.op == y.op and x.op in ("kv", "el") for x, y in zip(ra, rb)) and \
            all(x.op == "el" or x.args[0] is y.args[0] for x, y in zip(ra, rb)):
        for x, y in zip(ra, rb):
            out.append(mk("el", ite(c, x.args[0], y.args[0])) if x.op == "el"
                       else kv(x.args[0], ite(c, x.args[1], y.args[1])))
        return out
    keysb = {y.args[0]: y for y in rb if y.op == "kv"}
    for x in ra:
        if x.op == "kv" and x.args[0] in keysb:
            y = keysb.pop(x.args[0])
            rb.remove(y)
            out.append(kv(x.args[0], ite(c, x.args[1], y.args[1])))
        else:
            out.append(guard(c, x))
    out.extend(guard(not_(c), y) for y in rb)
    return out


def guard(c, x):
    c = truth(c)
    if c is TRUE:
        return x
    if x.op == "g":
        return mk("g", and_(c, x.args[0]), x.args[1])
    return mk("g", c, x)


def merge_content(c, a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if a.op == b.op == "dict":
        return mkdict(merge_layers(c, a.args, b.args))
    if a.op == b.op == "list":
        return mk("list", *merge_layers(c, a.args, b.args))
    return ite(c, a, b)


class Interp:
    def __init__(self, uni, shared, ref_params=None, shared_vals=frozenset(), inline=frozenset()):
        """shared: keys of functions present in both universes (kept opaque unless in `inline`);
        ref_params: key -> parameter name list in the reference (positional renaming)"""
        self.uni, self.shared, self.inline = uni, shared, inline
        self.ref_params = ref_params or {}
        self.shared_vals = shared_vals
        self.nobj = 0
        self.clos = {}
        self.pending = []
        self.stack = []
        self.nodes = 0
        self.mut_cache = {}
        self.notes = []
        self.obj_root = {}
        self.obj_src = {}
        self.star_params = set()
        self.root_cls = None

    # ------------------------------------------------------------ objects
    def new_obj(self, st, content):
        self.nobj += 1
        o = mk("obj", id(self), self.nobj)
        st.heap[o] = content
        return o

    def content(self, st, t):
        return st.heap[t] if t.op == "obj" and t in st.heap else t

    def freeze(self, t, st, memo=None):
        if not self._needs(t):
            return t
        memo = {} if memo is None else memo
        from .norm import nmap
        def go(x):
            if not self._needs(x):
                return x
            r = memo.get(x)
            if r is not None:
                return r
            if x.op == "obj":
                if x in st.heap:
                    memo[x] = mk("cyc")
                    r = go(st.heap[x])
                else:
                    r = mk("deadobj")
            elif x.op == "clo":
                r = self.clo_to_lam(x, st)
            else:
                r = nmap(x, go)
            memo[x] = r
            return r
        return go(t)

    _need = {}

    def _needs(self, t):
        r = self._need.get(t)
        if r is None:
            if t.op in ("obj", "clo"):
                r = True
            else:
                from .terms import children
                r = any(self._needs(c) for c in children(t))
            self._need[t] = r
        return r

    # ------------------------------------------------------------ entry
    def tick(self):
        self.nodes += 1
        if self.nodes > MAX_NODES:
            raise Unsupported("too many nodes")

    def param_names(self, func):
        a = func.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def canon_param(self, func, name):
        """reference name of a parameter (by position / keyword)"""
        ref = self.ref_params.get(func.key) if func is not None else None
        if ref is None:
            return name
        pos, kwonly, va, kwa = ref
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if name in names:
            i = names.index(name)
            if name in pos:
                return name
            if i < len(pos) and pos[i] not in names:
                return pos[i]
            return name
        if a.vararg and name == a.vararg.arg and va:
            return va
        if a.kwarg and name == a.kwarg.arg and kwa:
            return kwa
        return name

    def default(self, func, name, node, st):
        """a default value; one that the function fills is kept between calls"""
        if isinstance(node, (ast.Dict, ast.List, ast.Set)) or (isinstance(node, ast.Call) and isinstance(node.func, ast.Name)
                                                               and node.func.id in ("dict", "list", "set", "OrderedDict", "defaultdict")):
            for n in ast.walk(func.node):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == name or \
                        isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name and \
                        n.attr in ("update", "setdefault", "append", "extend", "add", "insert"):
                    return mk("gref", f"{func.key}.{name}")
        return self.eval(node, st)

    def summarize(self, func, cls=None):
        """-> dict(tree=..., st0=...)"""
        cls = cls or func.cls
        self.root_cls = cls
        fr = Frame(func, func.module, cls, 0)
        st = State(fr)
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        refp = self.ref_params.get(func.key)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        start = 0
        if func.cls is not None and func.kind in ("method", "property", "class") and names:
            fr.self_name = names[0]
            fr.self_term = mk("self") if func.kind != "class" else mk("clsself")
            st.env[names[0]] = fr.self_term
            start = 1
        for n in names[start:]:
            cn = self.canon_param(func, n)
            if refp is not None and cn not in refp[0] and n in defaults:
                st.env[n] = self.default(func, n, defaults[n], st)        # new optional parameter: its default
            else:
                st.env[n] = mk("param", cn)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if refp is not None and x.arg not in refp[1] and x.arg not in refp[0] and d is not None:
                st.env[x.arg] = self.default(func, x.arg, d, st)
            else:
                st.env[x.arg] = mk("param", x.arg)
        if a.vararg:
            st.env[a.vararg.arg] = mk("param", self.canon_param(func, a.vararg.arg))
        if a.kwarg:
            p = mk("param", self.canon_param(func, a.kwarg.arg))
            self.star_params.add(p)
            st.env[a.kwarg.arg] = self.new_obj(st, mk("dict", mk("rest", p)))
        self.stack.append(func.key)
        self.pending = []
        tree = self.block(func.node.body, st)
        self.stack.pop()
        return Summary(self, func, tree)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        cur = Leaf("fall", None, st)
        cont = None       # outer skeleton
        out = None
        i = 0
        while i < len(stmts):
            s = stmts[i]
            i += 1
            t = self.stmt(s, cur.st)
            if isinstance(t, Leaf) and t.kind == "fall":
                cur = t
                continue
            m = self.merge_falls(t)
            if m is None:
                return t
            rest = self.block(stmts[i:], m)
            return self.graft(t, rest)
        return cur

    def graft(self, t, rest):
        if isinstance(t, Leaf):
            return rest if t.kind == "fall" else t
        return Br(t.c, self.graft(t.a, rest), self.graft(t.b, rest))

    def merge_falls(self, t, kind="fall"):
        if isinstance(t, Leaf):
            return t.st if t.kind == kind else None
        a, b = self.merge_falls(t.a, kind), self.merge_falls(t.b, kind)
        if a is None:
            return b
        if b is None:
            return a
        return self.merge_states(t.c, a, b)

    def merge_states(self, c, a, b):
        if a is b:
            return a
        s = State(a.fr)
        made = {}
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            x, y = a.env.get(k, BOTTOM), b.env.get(k, BOTTOM)
            if x is y:
                s.env[k] = x
            elif x is BOTTOM or y is BOTTOM:
                s.env[k] = y if x is BOTTOM else x
            else:
                if x.op == "clo" and y.op == "clo":
                    s.env[k] = ite(c, self.freeze(x, a), self.freeze(y, b))
                    continue
                if x.op == y.op == "obj" and (o := self.join_fresh(c, x, a, y, b, k)) is not None:
                    made[k] = o
                    continue
                x, y = self.freeze_for_merge(x, a), self.freeze_for_merge(y, b)
                s.env[k] = ite(c, x, y)
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            s.heap[k] = merge_content(c, a.heap.get(k), b.heap.get(k))
        for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
            d = mk("attr", k[0], k[1])
            x, y = a.attrs.get(k, d), b.attrs.get(k, d)
            if x is y:
                s.attrs[k] = x
            else:
                # an attribute still holding its original value on one side
                if x.op == "obj" and y is d:
                    y = d
                s.attrs[k] = ite(c, self.freeze_for_merge(x, a), self.freeze_for_merge(y, b))
        s.events = merge_layers(c, a.events, b.events)
        for k, t in made.items():
            s.env[k] = self.new_obj(s, t)
        return s

    def join_fresh(self, c, x, a, y, b, name=None):
        """two containers, each made on its own side and held by nothing else: the content of the one chosen"""
        for o, st in ((x, a), (y, b)):
            if o not in st.heap or o in self.obj_root or o in self.obj_src:
                return None
            if any(v is o for k, v in st.env.items() if k != name) or any(v is o for v in st.attrs.values()) or \
                    any(h is not o and any(z is o for z in walk(v)) for h, v in st.heap.items() if self._needs(v)):
                return None
        kinds = {a.heap[x].op, b.heap[y].op}
        if kinds & {"dict", "list"} not in ({"dict"}, {"list"}) or kinds - {"dict", "list", "copyof", "attr", "param", "rest", "index", "getdef"}:
            return None
        t = ite(c, self.freeze(x, a), self.freeze(y, b))
        return mkdict([mk("rest", t)]) if "dict" in kinds else mk("list", mk("ext", t))

    def freeze_for_merge(self, t, st):
        return self.freeze(t, st)

    def with_pending(self, tree):
        p, self.pending = self.pending, []
        for c, leaf in reversed(p):
            tree = Br(c, leaf, tree)
        return tree

    def stmt(self, s, st):
        self.tick()
        saved, self.pending = self.pending, []
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(type(s).__name__)
        t = m(s, st)
        t = self.with_pending(t)
        self.pending = saved
        return self.simplify_tree(t)

    def simplify_tree(self, t):
        if isinstance(t, Br):
            if t.c is TRUE:
                return self.simplify_tree(t.a)
            if t.c is FALSE:
                return self.simplify_tree(t.b)
        return t

    def s_Pass(self, s, st):
        return Leaf("fall", None, st)

    def s_Import(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name.split(".")[0]] = mk("ref", a.name if a.asname else a.name.split(".")[0])
        return Leaf("fall", None, st)

    def s_ImportFrom(self, s, st):
        base = st.fr.module._rel(s)
        for a in s.names:
            if base in self.uni.modules:
                r = self.uni.resolve_attr(base, a.name)
                st.env[a.asname or a.name] = self.entity(r, a.name)
            else:
                st.env[a.asname or a.name] = mk("ref", f"{base}.{a.name}")
        return Leaf("fall", None, st)

    def s_Global(self, s, st):
        raise Unsupported("global")

    s_Nonlocal = s_Global

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                k = self.freeze(self.eval_key(t.slice, st), st)
                self.mutate(st, b, t.value, lambda c: mkdict(list(as_layers(c)) + [mk("del", k)]))
            else:
                raise Unsupported("del")
        return Leaf("fall", None, st)

    def s_Expr(self, s, st):
        v = s.value
        if isinstance(v, ast.Constant):
            return Leaf("fall", None, st)
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            self.eval(v, st)
            return Leaf("fall", None, st)
        t = self.eval(v, st)
        t = self.freeze(t, st)
        self.event(t, st)
        return Leaf("fall", None, st)

    def event(self, t, st):
        if t.op == "ite":
            e = State(st.fr)
            a, b = st.copy(), st.copy()
            self.event(t.args[1], a)
            self.event(t.args[2], b)
            st.events = merge_layers(t.args[0], a.events, b.events)
            return
        if t.op == "call":
            f = t.args[0] if isinstance(t.args[0], str) else ""
            if f == "print" or f.startswith(IGNORED_EVENTS[1:]) or f in ("numpy.errstate",):
                return
            st.events = st.events + [mk("ev", t)]
        elif t.op in ("icall", "meth", "smeth", "supercall", "hcall"):
            if t.op == "meth" and t.args[0] in ("warning", "info", "debug", "error"):
                return
            st.events = st.events + [mk("ev", t)]

    def s_Return(self, s, st):
        v = NONE if s.value is None else self.eval(s.value, st)
        return Leaf("ret", v, st)

    def s_Raise(self, s, st):
        return Leaf("raise", self.exc_name(s, st), st)

    def exc_name(self, s, st):
        if s.exc is None:
            return mk("raised", "reraise")
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        t = self.eval(e, st)
        if t.op == "ref":
            return mk("raised", t.args[0])
        if t.op == "cref":
            return mk("raised", t.args[0])
        if t.op in ("call", "icall"):
            # helper that builds the exception
            return mk("raised", self.freeze(t, st))
        if t.op == "new":
            return mk("raised", t.args[0])
        return mk("raised", self.freeze(t, st))

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        a = Leaf("fall", None, st)
        return Br(c, a, Leaf("raise", mk("raised", "AssertionError"), st.copy()))

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return Leaf("fall", None, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)
        return Leaf("fall", None, st)

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, st)
        elif isinstance(t, ast.Attribute):
            cur = self.eval(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), st)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            key = self.freeze(self.eval_key(t.slice, st), st)
            cur = self.subscript(base, key, st)
        else:
            raise Unsupported("augassign")
        rhs = self.eval(s.value, st)
        c0 = self.content(st, cur)
        if isinstance(s.op, ast.Add) and c0.op == "list" and cur.op == "obj":
            self.list_extend(st, cur, rhs)
            return Leaf("fall", None, st)
        if isinstance(s.op, ast.BitOr) and c0.op == "dict" and cur.op == "obj":
            st.heap[cur] = mkdict(list(c0.args) + self.update_layers([rhs], {}, st))
            return Leaf("fall", None, st)
        new = self.binop(s.op, self.freeze(cur, st), self.freeze(rhs, st))
        if isinstance(t, ast.Name):
            self.note_inplace(st, cur, new)
            st.env[t.id] = new
        elif isinstance(t, ast.Attribute):
            self.note_inplace(st, cur, new)
            self.set_attr(self.eval(t.value, st), t.attr, new, st)
        else:
            if self.root(cur, st) is not None and self.root(base, st) is None:
                self.note_inplace(st, cur, new)
            self.store_sub(t, base, key, new, st)
        return Leaf("fall", None, st)

    def note_inplace(self, st, cur, new):
        """x op= y on something that may be a caller's array"""
        if is_const(self.content(st, cur)):
            return
        for conds, t in self.alternatives(cur, st):
            r = self.root(t, st)
            if r is not None:
                self.add_mut(st, r, mk("ite", conds[0] if len(conds) == 1 else mk("and", *conds), new, t) if conds else new)

    def alternatives(self, t, st, limit=8):
        """(conditions, value) for the values a view of a conditional value may be"""
        if t.op == "ite":
            a = [([t.args[0]] + c, x) for c, x in self.alternatives(t.args[1], st, limit)]
            b = [([mk("not", t.args[0])] + c, x) for c, x in self.alternatives(t.args[2], st, limit)]
            return (a + b)[:limit]
        if t.op == "index":
            return [(c, index(x, t.args[1])) for c, x in self.alternatives(t.args[0], st, limit)]
        if t.op == "getdef":
            c = mk("in", t.args[1], t.args[0])
            return [([c], index(t.args[0], t.args[1]))] + [([mk("not", c)] + cs, x) for cs, x in self.alternatives(t.args[2], st, limit)]
        return [([], t)]

    def add_mut(self, st, r, new):
        st.events = [e for e in st.events if not (e.op == "mut" and e.args[0] is r)] + [mk("mut", r, self.freeze(new, st))]

    def root(self, t, st):
        """the parameter / attribute a value must alias, if any"""
        part = False
        for _ in range(30):
            if part and t.op in ("meth", "smeth") and t.args[0] in SHARED_PARTS:
                return t
            if t.op == "obj" and part and t not in self.obj_root and t in self.obj_src:
                t = self.obj_src[t]
                continue
            if t.op == "obj":
                return self.obj_root.get(t)
            if t.op in ("param", "gref"):
                return mk("entry", t) if part and t in self.star_params else t
            if t.op == "attr":
                if t.args[1] == "T":
                    t = t.args[0]
                    continue
                return t
            if t.op == "index":
                k = t.args[1]
                if k.op == "slice" or (k.op == "tuple" and all(x.op == "slice" or is_const(x) for x in k.args)) \
                        or is_const(k) or k.op in ("tmpv", "bv", "key"):
                    t = t.args[0]
                    part = True
                    continue
                return None
            if t.op == "meth" and t.args[0] in VIEW_METHODS:
                t = t.args[1]
                continue
            if t.op == "call" and t.args[0] in VIEW_FUNCS and t.args[1]:
                t = t.args[1][0]
                continue
            if t.op in ("icall",) and t.args[0] in ("reshape_to_pdf_size", "reshape_to_pdf_shape"):
                d = dict(t.args[1])
                t = d.get("vals") or T("x", (), -1)
                continue
            return None
        return None

    def assign(self, target, v, st):
        if isinstance(target, ast.Name):
            st.env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            star = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            vc = self.content(st, v)
            for i, e in enumerate(target.elts):
                if star:
                    if i == star[0]:
                        self.assign(e.value, index(self.freeze(v, st), mk("slice", const(i), const(i - n + 1) if i - n + 1 else NONE, NONE)), st)
                        continue
                    j = i if i < star[0] else i - n
                else:
                    j = i
                if vc.op == "tuple" and len(vc.args) == n:
                    self.assign(e, vc.args[j], st)
                elif vc.op == "ite" and vc.args[1].op == "tuple" and vc.args[2].op == "tuple":
                    self.assign(e, index(vc, const(j)), st)
                else:
                    fv = self.freeze(v, st)
                    if fv.op == "list" and len(fv.args) == 1 and fv.args[0].op == "many":
                        self.assign(e, self.elem_of(fv, const(j)), st)
                    else:
                        self.assign(e, index(fv, const(j)), st)
        elif isinstance(target, ast.Attribute):
            self.set_attr(self.eval(target.value, st), target.attr, v, st)
        elif isinstance(target, ast.Subscript):
            base = self.eval(target.value, st)
            key = self.freeze(self.eval_key(target.slice, st), st)
            self.store_sub(target, base, key, v, st)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, st)
        else:
            raise Unsupported("assign " + type(target).__name__)

    def elem_of(self, lst, i):
        if lst.op == "list" and len(lst.args) == 1 and lst.args[0].op == "many":
            h, dom, layers = lst.args[0].args
            if len(layers) == 1 and layers[0].op == "el":
                return nsubst(layers[0].args[0], {mk("bv", h, 0): i})
        return index(lst, i)

    def set_attr(self, base, name, v, st):
        base = self.freeze(base, st) if base.op != "obj" else base
        if base.op in ("self", "clsself") and self.root_cls is not None:
            f = self.uni.find_setter(self.root_cls, name)
            if f is not None and base.op == "self":
                self.invoke(f, [v], {}, st, self_term=base)
                return
        st.attrs[(base, name)] = v

    def store_sub(self, target, base, key, v, st):
        v_f = v
        def upd(c):
            if c.op == "dict" or (c.op not in ("list", "setitem", "fill") and is_const(key) and key.args[0] == "str"):
                return mkdict(list(as_layers(c)) + [kv(key, v_f)])
            if c.op == "list" and is_const(key) and key.args[0] == "int" and all(x.op == "el" for x in c.args):
                i = cval(key)
                if -len(c.args) <= i < len(c.args):
                    a = list(c.args)
                    a[i] = mk("el", v_f)
                    return mk("list", *a)
            if self.is_dict_attr(target):
                return mkdict(list(as_layers(c)) + [kv(key, v_f)])
            return setitem(c, key, self.freeze(v_f, st))
        self.mutate(st, base, getattr(target, "value", None), upd)

    def is_dict_attr(self, target):
        v = getattr(target, "value", None)
        return isinstance(v, ast.Attribute) and v.attr in ("_metadata", "_objdata", "metric_dict", "_creation_map",
                                                           "_extraction_map", "_reader_map")

    def settle(self, st, base):
        """objects made here and chosen by a condition, as one object (nothing else may hold one of them)"""
        if base.op != "ite":
            return base
        leaves = []
        def split(t):
            if t.op == "ite":
                split(t.args[1])
                split(t.args[2])
            else:
                leaves.append(t)
        split(base)
        if not all(x.op == "obj" and x in st.heap for x in leaves) or len(leaves) > 8:
            return base
        held = list(st.env.values()) + list(st.attrs.values())
        if any(x in held or x in self.obj_root for x in leaves):
            return base
        kinds = {st.heap[x].op for x in leaves}
        memo = {}
        def join(t):
            if t.op == "ite":
                return mk("ite", t.args[0], join(t.args[1]), join(t.args[2]))
            return self.freeze(st.heap[t], st, memo)
        t = join(base)
        if kinds == {"dict"}:
            t = mkdict([mk("rest", t)])
        elif kinds == {"list"}:
            t = mk("list", mk("ext", t))
        o = self.new_obj(st, t)
        for k, v in list(st.env.items()):
            if v is base:
                st.env[k] = o
        for k, v in list(st.attrs.items()):
            if v is base:
                st.attrs[k] = o
        return o

    def mutate(self, st, base, node, fn):
        """apply a content update to the object denoted by `base`"""
        base = self.settle(st, base)
        if base.op == "ite":
            def each(t, conds):
                if t.op == "ite":
                    each(t.args[1], conds + [t.args[0]])
                    each(t.args[2], conds + [mk("not", t.args[0])])
                    return
                r = self.root(t, st) if t.op != "obj" else None
                if r is not None:
                    c = conds[0] if len(conds) == 1 else mk("and", *conds)
                    self.add_mut(st, r, mk("ite", c, self.freeze(fn(t), st), t))
            each(base, [])
        if base.op == "obj":
            st.heap[base] = fn(st.heap[base])
            if base in self.obj_root:
                self.add_mut(st, self.obj_root[base], st.heap[base])
            return
        if base.op == "index" and base.args[0].op == "obj":
            # nested container: d[k1][k2] = v
            inner = self.subscript(base.args[0], base.args[1], st)
            if inner.op == "obj":
                st.heap[inner] = fn(st.heap[inner])
                return
        if base.op in ("self", "clsself"):
            st.events = st.events + [mk("mut", base, fn(base))]
            return
        r = self.root(base, st)
        new = fn(base)
        if r is not None:
            self.add_mut(st, r, new)
        elif base.op in ("index", "getdef"):
            self.note_inplace(st, base, new)
        # every name / attribute holding this very value now holds the updated object
        o = self.new_obj(st, new)
        self.obj_src[o] = base
        if r is not None:
            self.obj_root[o] = r
        hit = False
        for k, v in list(st.env.items()):
            if v is base:
                st.env[k] = o
                hit = True
        for k, v in list(st.attrs.items()):
            if v is base:
                st.attrs[k] = o
                hit = True
        if base.op == "attr" and (base.args[0], base.args[1]) not in st.attrs:
            st.attrs[(base.args[0], base.args[1])] = o
            hit = True
        # writes through a view of a local object
        if not hit and base.op in ("index", "attr", "meth", "call"):
            b = base
            while b.op in ("index",) or (b.op == "attr" and b.args[1] == "T"):
                b = b.args[0]
            if node is not None and isinstance(node, (ast.Subscript, ast.Attribute)):
                pass

    # -- control flow
    def s_If(self, s, st):
        c = self.cond(s.test, st)
        c = truth(c)
        if is_const(c):
            return self.block(s.body if cval(c) else s.orelse, st)
        a, b = st.copy(), st.copy()
        sv, self.pending = self.pending, []
        self.refine(a, c, True)
        self.refine(b, c, False)
        ta = self.block(s.body, a)
        tb = self.block(s.orelse, b)
        self.pending = sv
        if isinstance(ta, Leaf) and isinstance(tb, Leaf) and ta.kind == tb.kind == "fall":
            return Leaf("fall", None, self.merge_states(c, ta.st, tb.st))
        return Br(c, ta, tb)

    def refine(self, st, c, v):
        """names known to hold a specific value under a condition"""
        return

    def s_With(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            v = self.freeze(v, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk("ctx", v), st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        pre = st.copy()
        n_ev = len(st.events)
        body = self.block(s.body, st)
        if s.finalbody and not s.handlers:
            t = body
        else:
            t = body
        if s.handlers:
            key = self.try_key(pre, body)
            # explicit raises inside the body that a handler catches
            htrees = []
            for h in s.handlers:
                names = self.handler_names(h, pre)
                hs = pre.copy()
                if h.name:
                    hs.env[h.name] = mk("excvar")
                htrees.append((names, self.block(h.body, hs)))
            if s.orelse:
                m = self.merge_falls(body)
                if m is not None:
                    body = self.graft(body, self.block(s.orelse, m))
            t = body
            def catch(t):
                if isinstance(t, Leaf):
                    if t.kind == "raise":
                        for names, ht in htrees:
                            if self.catches(names, t.value):
                                return ht
                    return t
                return Br(t.c, catch(t.a), catch(t.b))
            explicit = [l for _, l in leaves(body) if l.kind == "raise" and any(self.catches(n, l.value) for n, _ in htrees)]
            t = catch(body)
            if not (explicit and self.only_explicit(s.body)):
                for names, ht in reversed(htrees):
                    t = Br(mk("exc", names, key), ht, t)
        if s.finalbody:
            def fin(t):
                if isinstance(t, Br):
                    return Br(t.c, fin(t.a), fin(t.b))
                f = self.block(s.finalbody, t.st.copy())
                def put(x):
                    if isinstance(x, Br):
                        return Br(x.c, put(x.a), put(x.b))
                    if x.kind == "fall":
                        return Leaf(t.kind, t.value, x.st)
                    return x
                return put(f)
            t = fin(t)
        return t

    def only_explicit(self, body):
        return len(body) == 1 and isinstance(body[0], ast.Raise)

    def handler_names(self, h, st):
        if h.type is None:
            return ("BaseException",)
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for e in ts:
            t = self.eval(e, st)
            out.append(t.args[0] if t.op in ("ref", "cref") else str(t))
        return tuple(sorted(out))

    def catches(self, names, raised):
        n = raised.args[0]
        if not isinstance(n, str):
            return False
        if n in names or "Exception" in names or "BaseException" in names:
            return True
        sup = {"KeyError": ("LookupError",), "IndexError": ("LookupError",)}
        return any(x in names for x in sup.get(n, ()))

    def try_key(self, pre, body):
        """what may raise: the calls evaluated in the body, as terms"""
        out = []
        for _, l in leaves(body):
            if l.kind == "ret":
                out.append(self.freeze(l.value, l.st))
            st = l.st
            for k, v in st.env.items():
                if pre.env.get(k) is not v:
                    out.append(self.freeze(v, st))
            for k, v in st.attrs.items():
                if pre.attrs.get(k) is not v:
                    out.append(self.freeze(v, st))
            for o, v in st.heap.items():
                if o in pre.heap and pre.heap[o] is not v:
                    for x in (v.args if v.op in ("dict", "list") else (v,)):
                        if x not in pre.heap[o].args:
                            out.append(self.freeze(x, st))
            out.extend(e for e in st.events if e not in pre.events)
        calls = set()
        for t in out:
            for x in walk(t):
                if x.op in ("call", "icall", "meth", "smeth", "index", "new", "eq", "key"):
                    calls.add(x)
        # maximal ones only
        inner = set()
        from .terms import children
        for x in calls:
            for c in children(x):
                for y in walk(c):
                    inner.add(y)
        return tuple(sorted((x for x in calls if x not in inner), key=lambda t: t.id))

    # -- loops
    def assigned_names(self, body):
        out = []
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                    out.append(n.id)
                elif isinstance(n, (ast.FunctionDef,)) and n.name not in out:
                    out.append(n.name)
        return out

    def s_While(self, s, st):
        i = fresh_tmp()
        def head(b):
            return self.cond(s.test, b)
        return self.loop(s, s.body, st, i, None, None, None, head)

    def s_For(self, s, st):
        itv = self.eval(s.iter, st)
        items = self.literal_items(itv, st)
        if items is not None and not has_loop_exit(s.body):
            cur = Leaf("fall", None, st)
            t = cur
            for k, x in enumerate(items):
                m = self.merge_falls(t)
                if m is None:
                    return t
                self.assign(s.target, x, m)
                t = self.graft(t, self.block(s.body, m))
            if s.orelse:
                m = self.merge_falls(t)
                if m is not None:
                    t = self.graft(t, self.block(s.orelse, m))
            return t
        i = fresh_tmp()
        dom, elem = self.iteration(itv, i, st, s.iter, s.body)
        return self.loop(s, s.body, st, i, dom, s.target, elem, None)

    def literal_items(self, itv, st):
        c = self.content(st, itv)
        if c.op == "list" and c.args and len(c.args) <= 6 and all(x.op == "el" for x in c.args):
            return [x.args[0] for x in c.args]
        if c.op == "tuple" and len(c.args) <= 6:
            return list(c.args)
        if c.op == "call" and c.args[0] == "range" and all(is_const(x) for x in c.args[1]):
            r = list(range(*[cval(x) for x in c.args[1]]))
            if len(r) <= 4:
                return [const(x) for x in r]
        if c.op == "call" and c.args[0] in ("enumerate", "zip") and c.args[1]:
            subs = [self.literal_items(x, st) for x in c.args[1]]
            if all(x is not None for x in subs) and len(set(map(len, subs))) == 1:
                if c.args[0] == "zip":
                    return [mk("tuple", *p) for p in zip(*subs)]
                if len(subs) == 1 and not c.args[2]:
                    return [mk("tuple", const(i), x) for i, x in enumerate(subs[0])]
        if c.op in ("dict",) or (c.op == "meth" and c.args[0] in ("items", "keys", "values")):
            d, what = (c, "keys") if c.op == "dict" else (self.content(st, c.args[1]), c.args[0])
            if d.op == "dict" and d.args and len(d.args) <= 6 and all(l.op == "kv" for l in d.args):
                return [l.args[0] if what == "keys" else l.args[1] if what == "values" else mk("tuple", *l.args)
                        for l in d.args]
        return None

    def iteration(self, itv, i, st, node=None, body=None):
        c = self.freeze(itv, st)
        return self.iter_term(c, i, node, body)

    def iter_term(self, c, i, node=None, body=None):
        if c.op == "call" and c.args[0] in ("list", "tuple", "iter") and len(c.args[1]) == 1 and not c.args[2]:
            return self.iter_term(c.args[1][0], i, node, body)
        if c.op == "call" and c.args[0] == "range" and not c.args[2]:
            a = c.args[1]
            if len(a) == 1:
                return a[0], i
            if len(a) == 2:
                return sub(a[1], a[0]), add(a[0], i)
            return mk("call", "rangelen", a, ()), add(a[0], mul(a[2], i))
        if c.op == "call" and c.args[0] == "enumerate":
            dom, e = self.iter_term(c.args[1][0], i)
            start = dict(c.args[2]).get("start", c.args[1][1] if len(c.args[1]) > 1 else const(0))
            return dom, mk("tuple", add(start, i), e)
        if c.op == "call" and c.args[0] == "zip" and not c.args[2]:
            ds, es = [], []
            for x in c.args[1]:
                d, e = self.iter_term(x, i)
                ds.append(d)
                es.append(e)
            uniq = sorted(set(ds), key=lambda t: t.id)
            dom = uniq[0] if len(uniq) == 1 else mk("mindom", *uniq)
            return dom, mk("tuple", *es)
        if c.op == "call" and c.args[0] == "map" and len(c.args[1]) == 2:
            pass
        if c.op == "meth" and c.args[0] in ("items", "keys", "values") and not c.args[2]:
            d = c.args[1]
            return self.iter_dict(d, i, c.args[0])
        if c.op == "dict":
            return self.iter_dict(c, i, "keys")
        if c.op == "list" and len(c.args) == 1 and c.args[0].op == "many":
            h, dom, layers = c.args[0].args
            if len(layers) == 1 and layers[0].op == "el":
                return dom, nsubst(layers[0].args[0], {mk("bv", h, 0): i})
        if node is not None and body is not None and isinstance(node, ast.Name) and dict_use(node.id, body):
            return self.iter_dict(c, i, "keys")
        return length(c), index(c, i)

    def iter_dict(self, d, i, what):
        if d.op == "dict" and len(d.args) == 1 and d.args[0].op == "many":
            h, dom, layers = d.args[0].args
            if len(layers) == 1 and layers[0].op == "kv":
                m = {mk("bv", h, 0): i}
                k, v = nsubst(layers[0].args[0], m), nsubst(layers[0].args[1], m)
                if what == "keys":
                    return dom, k
                if what == "values":
                    return dom, v
                return dom, mk("tuple", k, v)
        if d.op == "dict" and len(d.args) == 1 and d.args[0].op == "rest":
            d = d.args[0].args[0]
        k = mk("key", d, i)
        v = index(d, k)
        dom = mk("len", d)
        return dom, {"keys": k, "values": v, "items": mk("tuple", k, v)}[what]

    def loop(self, s, body, st, i, dom, target, elem, head):
        names = [n for n in self.assigned_names(body) if n in st.env]
        tnames = self.assigned_names([ast.Assign(targets=[target], value=ast.Constant(value=0))]) if target is not None else []
        names = [n for n in names if n not in tnames]
        # a list or table which is only ever added to in place is followed like one that is appended to
        grown, other = set(), set()
        for b_ in body:
            aug = {id(nd.target) for nd in ast.walk(b_) if isinstance(nd, ast.AugAssign) and isinstance(nd.op, (ast.Add, ast.BitOr))}
            for nd in ast.walk(b_):
                if isinstance(nd, ast.Name) and isinstance(nd.ctx, (ast.Store, ast.Del)):
                    (grown if id(nd) in aug else other).add(nd.id)
        names = [n for n in names if n in other or n not in grown or st.env[n].op != "obj" or st.heap.get(st.env[n], NONE).op not in ("list", "dict")]
        for b_ in body:
            for nd in ast.walk(b_):
                if isinstance(nd, ast.Subscript) and isinstance(nd.ctx, ast.Store) and isinstance(nd.value, ast.Name):
                    v0 = st.env.get(nd.value.id)
                    if v0 is not None and v0.op in ("param", "attr", "call", "index", "icall", "meth", "smeth") and nd.value.id not in names:
                        o = self.new_obj(st, v0)
                        r0 = self.root(v0, st)
                        if r0 is not None:
                            self.obj_root[o] = r0
                        for k, x in list(st.env.items()):
                            if x is v0:
                                st.env[k] = o
        mus = {n: mk("mu", i, n) for n in names}
        # dry run finds mutated objects/attributes
        nobj0 = self.nobj
        sv_p, self.pending = self.pending, []
        ev0 = len(st.events)

        def run(hm, am):
            b = st.copy()
            for n in names:
                if not (st.env[n].op == "obj" and st.env[n] in hm) and not st.env[n].op == "clo":
                    b.env[n] = mus[n]
            # a local rebinding a container each turn is not carried as a mutation
            for o, m_ in hm.items():
                b.heap[o] = m_
            for k, m_ in am.items():
                b.attrs[k] = m_
            cond0 = head(b) if head else None
            if target is not None:
                self.assign(target, elem, b)
            t = self.block(body, b)
            return b, t, cond0

        hm, am = {}, {}
        for _ in range(3):
            b, t, cond0 = run(hm, am)
            changed = False
            for _, l in leaves(t):
                for o, v in l.st.heap.items():
                    if o in st.heap and o not in hm and v is not st.heap[o]:
                        c = st.heap[o]
                        if c.op in ("dict", "list"):
                            hm[o] = mk(c.op, mk("rest" if c.op == "dict" else "ext", mk("mu", i, o.args[1])))
                        else:
                            hm[o] = mk("mu", i, o.args[1])
                        changed = True
                for k, v in l.st.attrs.items():
                    if k not in am and st.attrs.get(k) is not v:
                        am[k] = mk("mu", i, "." + k[1], k[0].id)
                        changed = True
            if not changed:
                break
        self.pending = sv_p
        # tree: continue/fall merge; exits separate
        cont = self.relabel(t, {"cont": "fall"})
        falls = self.merge_falls(cont)
        brks = self.merge_falls(cont, "brk")
        brk_c = self.path_cond(cont, "brk")
        exits = [(cs, l) for cs, l in leaves(cont) if l.kind in ("ret", "raise")]
        res = st.copy()
        fr = st.fr
        end = falls
        if end is None and brks is not None:
            end = brks
        elif end is not None and brks is not None:
            # value when leaving by break may differ from the value at the end of a turn
            end = self.merge_states(brk_c, brks, falls)
        D = dom if dom is not None else mk("while")
        extra = []
        if brk_c is not None and brk_c is not FALSE:
            extra.append(mk("brk", brk_c))
        if cond0 is not None:
            extra.append(mk("whilecond", cond0))
        ctl = tuple(extra)

        def closed(kind, *parts):
            h, ps = bind(kind, [i], *(parts + (ctl,)))
            ctlp = ps.pop()
            return h, ps, ctlp

        exit_tree = []
        if exits:
            # structural: sequence of exits inside the body in priority order
            def exit_info(t):
                """-> list of (cond, leaf)"""
                return [(and_(*cs), l) for cs, l in leaves(t) if l.kind in ("ret", "raise")]
            for c, l in exit_info(cont):
                val = self.freeze(l.value, l.st) if l.value is not None else NONE
                c, val = self.fix_mu(c, st, i), self.fix_mu(val, st, i)
                h, ps, ctlp = closed("first", c, val)
                anyc = mk("any", h, D, ps[0], ctlp) if ctlp else mk("any", h, D, ps[0])
                tmp_free = self.fix_mu(ps[1], st, i)
                if any(x.op == "bv" and x.args[0] == h for x in walk(ps[1])):
                    tmp_free = mk("first", h, D, ps[0], ps[1])
                if l.kind == "raise" and l.value is not None and isinstance(l.value.args[0], str):
                    tmp_free = l.value
                ls = res.copy()
                # events of the leaf's state
                ls.events = self.loop_events(st, [(c, l)], i, D, ctl, ev0)
                exit_tree.append((self.fix_mu(anyc, st, i), Leaf(l.kind, tmp_free, ls)))
        if end is not None:
            groups = {}
            # current values at the end of a turn
            newv = {}
            for n in names:
                v = end.env.get(n, BOTTOM)
                if v is BOTTOM:
                    continue
                if st.env[n].op == "obj" and v is st.env[n]:
                    continue
                newv[("n", n)] = (mus[n], st.env[n], self.freeze(v, end))
            for o, m_ in hm.items():
                newv[("o", o)] = (m_, st.heap[o], self.freeze(end.heap[o], end))
            for k, m_ in am.items():
                newv[("a", k)] = (m_, st.attrs.get(k, mk("attr", *k)), self.freeze(end.attrs.get(k, mk("attr", *k)), end))
            for n, v in end.env.items():
                if n not in st.env and n not in mus and v.op != "clo":
                    fv = self.freeze(v, end)
                    if any(x.op == "mu" for x in walk(fv)):
                        newv[("n", n)] = (mk("mu", i, n), mk("unset"), fv)
            allmu = {}
            for key, (m_, init, new) in newv.items():
                mm = m_ if m_.op == "mu" else m_.args[0].args[0]
                allmu[mm] = key
            result = {}
            for key, (m_, init, new) in newv.items():
                result[key] = self.summarise_var(key, m_, self.freeze(init, st), new, allmu, newv, i, D, ctl, st)
            for key, v in result.items():
                if key[0] == "n":
                    res.env[key[1]] = v
                elif key[0] == "o":
                    res.heap[key[1]] = v
                else:
                    res.attrs[key[1]] = v
            # loop-local names visible afterwards
            for n, v in end.env.items():
                if n not in st.env and n not in mus and ("n", n) not in newv:
                    fv = self.freeze(v, end) if v.op != "clo" else v
                    if fv.op == "clo" or not any(x is i or x.op == "mu" for x in walk(fv)):
                        res.env[n] = fv
                    else:
                        h, ps, ctlp = closed("last", fv)
                        res.env[n] = mk("last", h, D, ps[0], ctlp)
            # objects created in the loop but reachable later
            res.events = self.loop_events(st, [(TRUE, Leaf("fall", None, end))], i, D, ctl, ev0)
        out = Leaf("fall", None, res)
        if getattr(s, "orelse", None):
            if brk_c is not None and brk_c is not FALSE:
                raise Unsupported("for-else with break")
            out = self.block(s.orelse, res)
        for anyc, leaf in reversed(exit_tree):
            out = Br(anyc, leaf, out)
        return out

    def fix_mu(self, t, st, i):
        """loop-carried values mentioned in an exit condition become canonical names"""
        m = {}
        for x in walk(t):
            if x.op == "mu" and x.args[0] is i:
                m[x] = mk("carried")
        return nsubst(t, m) if m else t

    def loop_events(self, st, parts, i, D, ctl, ev0):
        out = list(st.events)
        for c, l in parts:
            new = l.st.events[ev0:]
            new = [self.fix_mu(self.freeze(guard(c, e), l.st), st, i) for e in new]
            if new:
                h, ps = bind("many", [i], tuple(new), tuple(self.fix_mu(x, st, i) for x in ctl))
                out.append(mk("many", h, D, ps[0] + tuple(ps[1])))
        return out

    def relabel(self, t, m):
        if isinstance(t, Leaf):
            return Leaf(m.get(t.kind, t.kind), t.value, t.st)
        return Br(t.c, self.relabel(t.a, m), self.relabel(t.b, m))

    def path_cond(self, t, kind):
        cs = [and_(*c) for c, l in leaves(t) if l.kind == kind]
        return or_(*cs) if cs else None

    def summarise_var(self, key, m_, init, new, allmu, newv, i, D, ctl, st):
        mu = m_ if m_.op == "mu" else m_.args[0].args[0]
        used = {x for x in walk(new) if x.op == "mu" and x in allmu}
        if new is m_ or new is mu:
            return init
        if not ctl:
            # containers
            if new.op == "dict" and new.args and new.args[0].op == "rest" and new.args[0].args[0] is mu and used == {mu}:
                layers = new.args[1:]
                if layers and not any(x is mu for l in layers for x in walk(l)):
                    h, ps = bind("many", [i], tuple(layers))
                    if not any(x.op == "bv" and x.args[0] == h for l in ps[0] for x in walk(l)):
                        pass
                    return mkdict(list(as_layers(init)) + [mk("many", h, D, ps[0])])
            if new.op == "list" and new.args and new.args[0].op == "ext" and new.args[0].args[0] is mu and used == {mu}:
                layers = new.args[1:]
                if layers and not any(x is mu for l in layers for x in walk(l)):
                    h, ps = bind("many", [i], tuple(layers))
                    base = list(init.args) if init.op == "list" else [mk("ext", init)]
                    return mk("list", *(base + [mk("many", h, D, ps[0])]))
            if mu not in used and not used:
                h, ps = bind("last", [i], new)
                if not any(x.op == "bv" and x.args[0] == h for x in walk(ps[0])):
                    return mk("last", h, D, ps[0], (init,)) if init is not ps[0] else init
                return mk("last", h, D, ps[0], (init,))
            if used == {mu}:
                e = additive(new, mu)
                if e is not None:
                    h, ps = bind("sumof", [i], e)
                    return add(init, mk("sumof", h, D, ps[0]))
                f = fill_step(new, mu)
                if f is not None:
                    h, ps = bind("fill", [i], tuple(f))
                    return mk("fill", h, D, ps[0], init)
                if is_bool_acc(new, mu):
                    c = is_bool_acc(new, mu)
                    kind, cc = c
                    h, ps = bind("any", [i], cc)
                    a = mk("any", h, D, ps[0])
                    return or_(init, a) if kind == "or" else and_(init, not_(a))
        # generic fold over the mutually dependent variables
        deps = [key]
        seen = {key}
        q = [key]
        while q:
            k = q.pop(0)
            nv = newv[k][2]
            ms = sorted({x for x in walk(nv) if x.op == "mu" and x in allmu}, key=lambda t: t.id)
            for x in ms:
                if allmu[x] not in seen:
                    seen.add(allmu[x])
                    deps.append(allmu[x])
                    q.append(allmu[x])
        for c in ctl:
            for x in sorted({x for x in walk(c) if x.op == "mu" and x in allmu}, key=lambda t: t.id):
                if allmu[x] not in seen:
                    seen.add(allmu[x])
                    deps.append(allmu[x])
        tmps = [i]
        steps, inits = [], []
        for k in deps:
            mm = newv[k][0]
            tmps.append(mm if mm.op == "mu" else mm.args[0].args[0])
            steps.append(newv[k][2])
            inits.append(self.freeze(newv[k][1], st))
        h, ps = bind("fold", tmps, tuple(steps), ctl)
        return mk("fold", h, D, tuple(inits), ps[0], ps[1])

    def s_Break(self, s, st):
        return Leaf("brk", None, st)

    def s_Continue(self, s, st):
        return Leaf("cont", None, st)

    def s_FunctionDef(self, s, st):
        st.env[s.name] = self.make_clo(s, st)
        return Leaf("fall", None, st)

    def s_ClassDef(self, s, st):
        raise Unsupported("nested class")

    # ------------------------------------------------------------ closures
    def make_clo(self, node, st):
        c = mk("clo", id(self), len(self.clos))
        self.clos[c] = (node, st.fr, st)
        return c

    def clo_env(self, c, st):
        node, fr, dst = self.clos[c]
        if st is not None and st.fr is fr:
            return st
        return dst

    def clo_to_lam(self, c, st):
        node, fr, dst = self.clos[c]
        if c in self.stack:
            return mk("rec", getattr(node, "name", "lambda"))
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        tmps = [fresh_tmp() for _ in params]
        kws = {}
        n = len(params)
        v = self.call_clo(c, list(tmps), {}, st, freeze_only=True)
        h, ps = bind("lam", tmps, v)
        return mk("lam", h, n, ps[0])

    def call_clo(self, c, args, kwargs, st, freeze_only=False):
        node, fr, dst = self.clos[c]
        src = self.clo_env(c, st)
        nf = Frame(fr.func, fr.module, fr.cls, fr.depth + 1, closure=src)
        nf.self_name, nf.self_term = fr.self_name, fr.self_term
        inner = State(nf)
        inner.heap, inner.attrs, inner.events = dict(st.heap), dict(st.attrs), list(st.events)
        for o, v in src.heap.items():
            inner.heap.setdefault(o, v)
        env = dict(src.env)
        inner.env = env
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        self.bind_params(inner, params, a, defaults, args, kwargs, src)
        self.stack.append(c)
        if len(self.stack) > 40:
            raise Unsupported("closure depth")
        try:
            if isinstance(node, ast.Lambda):
                v = self.eval(node.body, inner)
                if freeze_only:
                    return self.freeze(v, inner)
                st.heap, st.attrs, st.events = inner.heap, inner.attrs, inner.events
                return v
            sv, self.pending = self.pending, []
            tree = self.block(node.body, inner)
            self.pending = sv
            if freeze_only:
                return self.tree_value(tree)
            return self.finish_call(tree, st)
        finally:
            self.stack.pop()

    def tree_value(self, t):
        if isinstance(t, Br):
            return ite(t.c, self.tree_value(t.a), self.tree_value(t.b))
        if t.kind == "raise":
            return t.value
        if t.kind == "ret":
            return self.freeze(t.value, t.st)
        return NONE

    def bind_params(self, inner, params, a, defaults, args, kwargs, dst):
        args = list(args)
        kwargs = dict(kwargs)
        rest = kwargs.pop("**", None)
        star = None
        for n, x in enumerate(args):
            if x.op == "star":
                star = n
        if star is not None:
            pre, tail = args[:star], args[star:]
        else:
            pre, tail = args, []
        for n, p in enumerate(params):
            if n < len(pre):
                inner.env[p] = pre[n]
            elif p in kwargs:
                inner.env[p] = kwargs.pop(p)
            elif rest is not None:
                d = self.eval(defaults[p], dst) if p in defaults else None
                inner.env[p] = dict_get(rest, const(p), d)
                rest = mkdict(list(as_layers(rest)) + [mk("del", const(p))])
            elif p in defaults:
                inner.env[p] = self.eval(defaults[p], dst)
            elif tail and len(tail) == 1:
                inner.env[p] = index(tail[0].args[0], const(n - len(pre)))
            else:
                inner.env[p] = mk("unbound", p)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwargs:
                inner.env[x.arg] = kwargs.pop(x.arg)
            elif rest is not None:
                inner.env[x.arg] = dict_get(rest, const(x.arg), self.eval(d, dst) if d is not None else None)
                rest = mkdict(list(as_layers(rest)) + [mk("del", const(x.arg))])
            else:
                inner.env[x.arg] = self.eval(d, dst) if d is not None else mk("unbound", x.arg)
        if a.vararg:
            extra = pre[len(params):]
            if tail and len(tail) == 1 and not extra and len(pre) == len(params):
                inner.env[a.vararg.arg] = tail[0].args[0]
            elif tail and not extra and len(pre) < len(params):
                inner.env[a.vararg.arg] = index(tail[0].args[0], mk("slice", const(len(params) - len(pre)), NONE, NONE))
            elif tail:
                inner.env[a.vararg.arg] = concat(mk("tuple", *extra), *[t.args[0] for t in tail])
            else:
                inner.env[a.vararg.arg] = mk("tuple", *extra)
        if a.kwarg:
            layers = list(as_layers(rest)) if rest is not None else []
            layers += [kv(const(k), v) for k, v in sorted(kwargs.items())]
            inner.env[a.kwarg.arg] = self.new_obj(inner, mkdict(layers))

    # ------------------------------------------------------------ calls to package functions
    def is_opaque(self, f, st):
        if f.key in self.inline and f.key not in self.stack:
            return False
        if f.key in self.shared:
            return True
        return False

    def mutates(self, f, depth=0):
        """does f (a method) write attributes of self, directly or through self calls; or its parameters"""
        r = self.mut_cache.get(f.key)
        if r is not None:
            return r
        self.mut_cache[f.key] = False
        res = False
        names = self.param_names(f)
        selfn = names[0] if f.cls is not None and f.kind in ("method", "property") and names else None
        for n in ast.walk(f.node):
            tgt = []
            if isinstance(n, ast.Assign):
                tgt = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tgt = [n.target]
            elif isinstance(n, ast.Delete):
                tgt = n.targets
            for t in tgt:
                for e in ast.walk(t):
                    b = e
                    if isinstance(e, (ast.Attribute, ast.Subscript)) and isinstance(getattr(e, "ctx", None), (ast.Store, ast.Del)):
                        while isinstance(b, (ast.Attribute, ast.Subscript)):
                            b = b.value
                        if isinstance(b, ast.Name) and b.id == selfn:
                            res = True
                        if isinstance(b, ast.Name) and b.id in names and isinstance(e, ast.Subscript) and b.id != selfn:
                            res = True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                v = n.func.value
                if isinstance(v, ast.Name) and v.id == selfn and f.cls is not None:
                    g = self.uni.find_method(f.cls, n.func.attr)
                    if g is not None and depth < 6 and g.key != f.key and self.mutates(g, depth + 1):
                        res = True
                if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == selfn and \
                        n.func.attr in ("append", "update", "clear", "extend", "setdefault", "pop"):
                    res = True
        self.mut_cache[f.key] = res
        return res

    def mutates_params(self, f):
        k = ("p", f.key)
        r = self.mut_cache.get(k)
        if r is not None:
            return r
        names = set(self.param_names(f))
        res = False
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in names:
                        res = True
                    if isinstance(n, ast.AugAssign) and isinstance(t, ast.Name) and t.id in names:
                        pass
        self.mut_cache[k] = res
        return res

    def invoke(self, f, args, kwargs, st, self_term=None, cls=None):
        """call a package function/method"""
        opaque = self.is_opaque(f, st)
        if opaque and f.cls is not None and self_term is not None and self_term.op == "self" and self.mutates(f) \
                and f.key not in self.stack:
            opaque = False
        if opaque and self.mutates_params(f) and f.key not in self.stack:
            opaque = False
        if f.key in self.stack or len(self.stack) > MAX_DEPTH:
            opaque = True
        if is_generator(f.node):
            opaque = True
        if opaque:
            return self.opaque_call(f, args, kwargs, st, self_term)
        nf = Frame(f, f.module, cls or (self.root_cls if (self_term is not None and self_term.op in ("self", "clsself") and self.root_cls is not None
                                              and f.cls is not None and f.cls in self.uni.mro(self.root_cls)) else f.cls), st.fr.depth + 1)
        inner = State(nf)
        inner.heap, inner.attrs, inner.events = dict(st.heap), dict(st.attrs), list(st.events)
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        if f.cls is not None and f.kind in ("method", "property", "class"):
            nf.self_name = params[0]
            nf.self_term = self_term
            inner.env[params[0]] = self_term if self_term is not None else mk("cref", f.cls.key)
            params = params[1:]
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults)) if a.defaults else {}
        mst = State(Frame(f, f.module, f.cls, 0))
        self.bind_params(inner, params, a, defaults, args, kwargs, mst)
        for o, c in mst.heap.items():
            inner.heap.setdefault(o, c)
        self.stack.append(f.key)
        sv, self.pending = self.pending, []
        try:
            tree = self.block(f.node.body, inner)
        finally:
            self.stack.pop()
            self.pending = sv
        return self.finish_call(tree, st, [x for x in list(args) + list(kwargs.values()) if x.op not in ("obj", "const")])

    def finish_call(self, tree, st, passed=()):
        """raises become pending exits of the caller; returns and falls merge"""
        for cs, l in leaves(tree):
            if l.kind == "raise":
                ls = st.copy()
                ls.heap, ls.attrs, ls.events = l.st.heap, l.st.attrs, l.st.events
                self.pending.append((and_(*cs), Leaf("raise", l.value, ls)))
        # arguments the callee changed in place: the caller's names now hold the changed object
        touched = {}
        if passed:
            for _, l in leaves(tree):
                for o in l.st.heap:
                    b = self.obj_src.get(o)
                    if b is not None and o not in st.heap and any(b is x for x in passed):
                        touched[b] = True
        names = [k for k, v in st.env.items() if v in touched] if touched else []
        def conv(t):
            if isinstance(t, Br):
                return Br(t.c, conv(t.a), conv(t.b))
            if t.kind == "raise":
                return t
            s2 = t.st.copy()
            s2.env = {"__ret__": t.value if t.kind == "ret" else NONE}
            for k in names:
                b = st.env[k]
                now = [o for o in t.st.heap if self.obj_src.get(o) is b and o not in st.heap]
                s2.env[k] = now[-1] if now else b
            return Leaf("fall", None, s2)
        m = self.merge_falls(conv(tree))
        if m is None:
            return BOTTOM
        v = m.env["__ret__"]
        for k in names:
            st.env[k] = m.env[k]
        st.heap, st.attrs, st.events = m.heap, m.attrs, m.events
        return v

    def opaque_call(self, f, args, kwargs, st, self_term=None):
        fargs = [self.freeze(x, st) for x in args]
        fkw = {k: self.freeze(v, st) for k, v in kwargs.items()}
        bound = self.bind_opaque(f, fargs, fkw)
        if self_term is not None and self_term.op == "self":
            return mk("smeth", f.name, bound)
        if self_term is not None and self_term.op == "clsself":
            return mk("smeth", f.name, bound)
        if f.cls is not None and self_term is not None:
            return mk("meth", f.name, self_term, (), bound)
        return mk("icall", f.key, bound)

    def bind_opaque(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults)) if a.defaults else {}
        if f.cls is not None and f.kind in ("method", "class", "property"):
            names = names[1:]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        rest = kwargs.pop("**", None)
        if any(x.op == "star" for x in args):
            return tuple([("*" + str(n), x) for n, x in enumerate(args)] + sorted(kwargs.items()) +
                         ([("**", rest)] if rest is not None else []))
        mst = State(Frame(f, f.module, f.cls, 0))
        refp = self.ref_params.get(f.key)
        for n, p in enumerate(names):
            cp = self.canon_param(f, p)
            if n < len(args):
                v = args[n]
            elif p in kwargs:
                v = kwargs.pop(p)
            elif rest is not None:
                continue
            elif p in defaults:
                v = self.freeze(self.eval(defaults[p], mst), mst)
            else:
                v = mk("unbound", p)
            if refp is not None and cp not in refp[0] and p in defaults:
                dv = self.freeze(self.eval(defaults[p], mst), mst)
                if v is dv:
                    continue
            out[cp] = v
        for n, x in enumerate(args[len(names):]):
            out["*" + str(n)] = x
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwargs:
                out[x.arg] = kwargs.pop(x.arg)
            elif d is not None and rest is None:
                out[x.arg] = self.freeze(self.eval(d, mst), mst)
        for k, v in kwargs.items():
            out[k] = v
        if rest is not None:
            out["**"] = rest
        return tuple(sorted(out.items()))

    # ------------------------------------------------------------ expressions
    def cond(self, node, st):
        if isinstance(node, ast.BoolOp):
            vals = [self.cond(v, st) for v in node.values]
            return and_(*vals) if isinstance(node.op, ast.And) else or_(*vals)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return not_(self.cond(node.operand, st))
        t = self.eval(node, st)
        t = self.freeze(t, st)
        return truth(t)

    def eval(self, node, st):
        self.tick()
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            raise Unsupported(type(node).__name__)
        return m(node, st)

    def e_Constant(self, n, st):
        if n.value is Ellipsis:
            return mk("ellipsis")
        return const(n.value)

    def e_Name(self, n, st):
        return self.name(n.id, st)

    def name(self, ident, st):
        v = st.env.get(ident)
        if v is not None:
            return v
        cl = st.fr.closure
        while cl is not None:
            if ident in cl.env:
                return cl.env[ident]
            cl = cl.fr.closure
        r = self.uni.resolve(st.fr.module, ident)
        if r is not None:
            return self.entity(r, ident)
        if ident in BUILTINS:
            return mk("ref", ident)
        return mk("ref", "?" + ident)

    def entity(self, r, ident):
        if isinstance(r, Func):
            return mk("fref", r.key)
        if isinstance(r, Cls):
            return mk("cref", r.key)
        if r is None:
            return mk("ref", "?" + ident)
        if r[0] == "ext":
            return mk("ref", r[1])
        if r[0] == "module":
            return mk("mref", r[1])
        if r[0] == "val":
            _, module, expr, nm = r
            if isinstance(expr, (ast.Name, ast.Attribute)):
                ms = State(Frame(None, module, None, 0))
                return self.eval(expr, ms)
            if nm in self.shared_vals:
                return mk("gref", nm)
            if (module.name, nm) in self.uni.stateful():
                return mk("gref", f"{module.name}.{nm}")
            ms = State(Frame(None, module, None, 0))
            k = ("val", module.name, nm)
            if k in self.stack:
                return mk("gref", nm)
            self.stack.append(k)
            try:
                return self.freeze(self.eval(expr, ms), ms)
            finally:
                self.stack.pop()
        raise Unsupported("entity")

    def e_Attribute(self, n, st):
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "super":
            return mk("superattr", n.attr)
        base = self.eval(n.value, st)
        return self.load_attr(base, n.attr, st)

    def fixed_display(self, a):
        """the value of a class attribute that is written down in full and cannot be changed in place"""
        e = a[1]
        if isinstance(e, ast.Constant):
            return const(e.value)
        inner = e.args[0] if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("frozenset", "tuple") and len(e.args) == 1 and not e.keywords else e
        if not isinstance(inner, (ast.Tuple, ast.Set)) and not (inner is not e and isinstance(inner, ast.List)):
            return None
        if not all(isinstance(x, ast.Constant) for x in inner.elts):
            return None
        ms = State(Frame(None, a[0].module, None, 0))
        return self.freeze(self.eval(inner, ms), ms)

    def load_attr(self, base, name, st):
        if base.op == "mref":
            r = self.uni.resolve_attr(base.args[0], name)
            if r is not None:
                return self.entity(r, name)
            return mk("ref", f"{base.args[0]}.{name}")
        if base.op == "ref":
            return mk("ref", f"{base.args[0]}.{name}")
        if base.op == "cref":
            c = self.uni.classes.get(base.args[0])
            if (base, name) in st.attrs:
                return st.attrs[(base, name)]
            if c is not None:
                f = self.uni.find_method(c, name)
                if f is not None:
                    return mk("cbound", base, name)
                a = self.uni.find_attr(c, name)
                if a is not None:
                    if any(b == ("ext", "enum.Enum") for b in self.uni.mro(c)):
                        return mk("enum", c.name, name)
                    if not self.attr_assigned(c, name):
                        v = self.fixed_display(a)
                        if v is not None:
                            return v
            return mk("attr", base, name)
        if base.op in ("self", "clsself") and self.root_cls is not None:
            if (base, name) in st.attrs:
                return st.attrs[(base, name)]
            f = self.uni.find_method(self.root_cls, name)
            if f is not None:
                if f.kind == "property":
                    if f.key in self.stack:
                        return mk("attr", base, name)
                    return self.invoke_property(f, base, st)
                return mk("attr", base, name)
            a = self.uni.find_attr(self.root_cls, name)
            if a is not None and not any(name in s.attrs for s in self.uni.subclasses(self.root_cls)) and not self.attr_assigned(self.root_cls, name):
                v = self.fixed_display(a)
                if v is not None:
                    return v
            return mk("attr", base, name)
        fb = base if base.op == "obj" else self.freeze(base, st)
        if (fb, name) in st.attrs:
            return st.attrs[(fb, name)]
        if base.op == "obj":
            fb = self.freeze(base, st)
        if fb.op == "new":
            c = self.uni.classes.get(fb.args[0])
            if c is not None:
                f = self.uni.find_method(c, name)
                if f is not None and f.kind == "property" and f.key not in self.shared:
                    pass
        if name in ("shape", "size", "ndim"):
            return mk(name, fb)
        return mk("attr", fb, name)

    def attr_assigned(self, cls, name):
        for c in [cls] + [x for x in self.uni.mro(cls) if isinstance(x, Cls)] + self.uni.subclasses(cls):
            for f in c.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                        return True
        return False

    def invoke_property(self, f, base, st):
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        nf = Frame(f, f.module, self.root_cls if base.op in ("self", "clsself") else st.fr.cls, st.fr.depth + 1)
        inner = State(nf)
        inner.heap, inner.attrs, inner.events = dict(st.heap), dict(st.attrs), list(st.events)
        nm = f.node.args.args[0].arg
        nf.self_name, nf.self_term = nm, base
        inner.env[nm] = base
        self.stack.append(f.key)
        sv, self.pending = self.pending, []
        try:
            tree = self.block(f.node.body, inner)
        finally:
            self.stack.pop()
            self.pending = sv
        return self.finish_call(tree, st)

    def e_Subscript(self, n, st):
        base = self.eval(n.value, st)
        key = self.eval_key(n.slice, st)
        return self.subscript(base, self.freeze(key, st), st)

    def eval_key(self, n, st):
        if isinstance(n, ast.Slice):
            return mk("slice", *[NONE if x is None else self.freeze(self.eval(x, st), st) for x in (n.lower, n.upper, n.step)])
        if isinstance(n, ast.Tuple):
            return mk("tuple", *[self.eval_key(e, st) for e in n.elts])
        return self.eval(n, st)

    def e_Slice(self, n, st):
        return self.eval_key(n, st)

    def subscript(self, base, key, st):
        c = self.content(st, base)
        if c.op == "dict":
            v = dict_get(c, key)
            return v if v.op == "obj" else self.freeze(v, st) if self._needs(v) and v.op != "clo" else v
        if c.op == "list" and is_const(key) and all(x.op == "el" for x in c.args):
            return index(c, key)
        if c.op == "tuple":
            return index(c, key)
        if c.op == "gref" and key.op == "attr":
            pass
        c = self.freeze(c, st)
        if c.op == "list" and len(c.args) == 1 and c.args[0].op == "many" and key.op not in ("slice",) and not (is_num(key) and cval(key) < 0):
            if not any(x.op == "slice" for x in walk(key)) and key.op in ("tmpv", "const", "bv"):
                return self.elem_of(c, key)
        return index(c, key)

    def e_Tuple(self, n, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            parts = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    parts.append(self.freeze(self.eval(e.value, st), st))
                else:
                    parts.append(mk("tuple", self.eval(e, st)))
            return concat(*parts)
        return mk("tuple", *[self.eval(e, st) for e in n.elts])

    def e_List(self, n, st):
        els = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                els.append(mk("ext", self.freeze(self.eval(e.value, st), st)))
            else:
                els.append(mk("el", self.eval(e, st)))
        return self.new_obj(st, mk("list", *els))

    def e_Set(self, n, st):
        return mk("set", *sorted([self.freeze(self.eval(e, st), st) for e in n.elts], key=lambda t: t.id))

    def e_Dict(self, n, st):
        layers = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                layers.append(mk("rest", self.freeze(self.eval(v, st), st)))
            else:
                layers.append(kv(self.freeze(self.eval(k, st), st), self.eval(v, st)))
        return self.new_obj(st, mkdict(layers))

    def e_Starred(self, n, st):
        v = self.eval(n.value, st)
        c = self.content(st, v)
        return mk("star", c if c.op != "obj" else self.freeze(c, st))

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                t = self.freeze(self.eval(v.value, st), st)
                parts.append(t if v.format_spec is None and v.conversion == -1 else mk("fmt", t))
        return fstr(*parts) if parts else const("")

    def e_FormattedValue(self, n, st):
        return self.freeze(self.eval(n.value, st), st)

    def e_Lambda(self, n, st):
        return self.make_clo(n, st)

    def e_IfExp(self, n, st):
        c = self.cond(n.test, st)
        if is_const(c):
            return self.eval(n.body if cval(c) else n.orelse, st)
        a, b = st.copy(), st.copy()
        x = self.eval(n.body, a)
        y = self.eval(n.orelse, b)
        if x is y:
            st.become(self.merge_states(c, a, b))
            return x
        t = self.join_fresh(c, x, a, y, b) if x.op == y.op == "obj" else None
        x, y = self.freeze(x, a), self.freeze(y, b)
        st.become(self.merge_states(c, a, b))
        if t is not None:
            return self.new_obj(st, t)
        return ite(c, x, y)

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        self.assign(n.target, v, st)
        return v

    def e_BoolOp(self, n, st):
        vals = [self.freeze(self.eval(v, st), st) for v in n.values]
        if all(is_bool(v) for v in vals):
            return and_(*vals) if isinstance(n.op, ast.And) else or_(*vals)
        r = vals[-1]
        for v in reversed(vals[:-1]):
            r = ite(truth(v), r, v) if isinstance(n.op, ast.And) else ite(truth(v), v, r)
        return r

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return not_(self.cond(n.operand, st))
        v = self.freeze(self.eval(n.operand, st), st)
        if isinstance(n.op, ast.USub):
            return neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        return mk("invert", v)

    def e_BinOp(self, n, st):
        a, b = self.eval(n.left, st), self.eval(n.right, st)
        if isinstance(n.op, ast.BitOr) and "dict" in (self.content(st, a).op, self.content(st, b).op):
            return self.new_obj(st, mkdict(self.update_layers([a, b], {}, st)))
        a, b = self.freeze(a, st), self.freeze(b, st)
        r = self.binop(n.op, a, b)
        if r.op == "list":
            return self.new_obj(st, r)
        return r

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.Pow):
            return power(a, b)
        if isinstance(op, ast.Mod):
            if is_const(a) and a.args[0] == "str":
                return format_percent(cval(a), b)
            return mk("mod", a, b)
        if isinstance(op, ast.FloorDiv):
            return mk("floordiv", a, b)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            nm = {"BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor"}[type(op).__name__]
            x, y = sorted((a, b), key=lambda t: t.id)
            return mk(nm, x, y)
        if isinstance(op, (ast.LShift, ast.RShift)):
            return mk("lshift" if isinstance(op, ast.LShift) else "rshift", a, b)
        if isinstance(op, ast.MatMult):
            return call("numpy.matmul", (a, b))
        raise Unsupported("binop")

    def e_Compare(self, n, st):
        left = self.freeze(self.eval(n.left, st), st)
        out = []
        for op, rn in zip(n.ops, n.comparators):
            right = self.freeze(self.eval(rn, st), st)
            out.append(compare(op, left, right))
            left = right
        return out[0] if len(out) == 1 else and_(*out)

    # comprehensions
    def comp(self, n, st, build):
        exact = [True]

        def go(gens, st):
            if not gens:
                return build(st)
            g = gens[0]
            itv = self.eval(g.iter, st)
            items = self.literal_items(itv, st)
            if items is not None:
                out = []
                for x in items:
                    self.assign(g.target, x, st)
                    c = [self.cond(i, st) for i in g.ifs]
                    out.extend(guard(and_(*c), l) if c else l for l in go(gens[1:], st))
                return out
            i = fresh_tmp()
            exact[0] = False
            dom, elem = self.iteration(itv, i, st, g.iter, [ast.Expr(value=n)])
            self.assign(g.target, elem, st)
            cs = [self.cond(c, st) for c in g.ifs]
            layers = [self.freeze(l, st) for l in go(gens[1:], st)]
            if cs:
                layers = [guard(and_(*cs), l) for l in layers]
            h, ps = bind("many", [i], tuple(layers))
            return [mk("many", h, dom, ps[0])]
        inner = st.copy()
        layers = go(n.generators, inner)
        # side effects of the element expressions are kept
        st.heap, st.attrs, st.events = inner.heap, inner.attrs, inner.events
        own = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        for name, v in inner.env.items():
            if name not in own and st.env.get(name) is not v:
                if not exact[0] and name in st.env:
                    raise Unsupported("a comprehension which changes what it uses")
                st.env[name] = v
        layers = [self.freeze(l, inner) for l in layers]
        return layers

    def e_ListComp(self, n, st):
        ls = self.comp(n, st, lambda s: [mk("el", self.freeze(self.eval(n.elt, s), s))])
        t = mk("list", *ls)
        return self.new_obj(st, t)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st):
        ls = self.comp(n, st, lambda s: [mk("el", self.freeze(self.eval(n.elt, s), s))])
        return call("set", (mk("list", *ls),))

    def e_DictComp(self, n, st):
        ls = self.comp(n, st, lambda s: [kv(self.freeze(self.eval(n.key, s), s), self.freeze(self.eval(n.value, s), s))])
        return self.new_obj(st, mkdict(ls))

    def e_Yield(self, n, st):
        v = NONE if n.value is None else self.freeze(self.eval(n.value, st), st)
        st.events = st.events + [mk("yield", v)]
        return mk("sent")

    def e_YieldFrom(self, n, st):
        v = self.freeze(self.eval(n.value, st), st)
        i = fresh_tmp()
        dom, elem = self.iter_term(v, i)
        h, ps = bind("many", [i], (mk("yield", elem),))
        st.events = st.events + [mk("many", h, dom, ps[0])]
        return mk("sent")

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st):
        f = n.func
        # super()
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == "super":
            args, kwargs = self.args(n, st)
            return self.super_call(f.attr, args, kwargs, st)
        if isinstance(f, ast.Attribute):
            base = self.eval(f.value, st)
            args, kwargs = self.args(n, st)
            return self.method_call(base, f.attr, args, kwargs, st, f.value)
        fn = self.eval(f, st)
        args, kwargs = self.args(n, st)
        return self.apply(fn, args, kwargs, st)

    def args(self, n, st):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                c = self.content(st, v)
                if c.op == "tuple":
                    args.extend(c.args)
                elif c.op == "list" and all(x.op == "el" for x in c.args):
                    args.extend(x.args[0] for x in c.args)
                elif c.op == "concat":
                    for p in c.args:
                        if p.op == "tuple":
                            args.extend(p.args)
                        else:
                            args.append(mk("star", p))
                else:
                    args.append(mk("star", self.freeze(c, st)))
            else:
                args.append(self.eval(a, st))
        kwargs = {}
        rest = []
        for k in n.keywords:
            if k.arg is None:
                v = self.eval(k.value, st)
                c = self.freeze(self.content(st, v), st)
                rest.extend(spread(c))
            else:
                kwargs[k.arg] = self.eval(k.value, st)
        if rest:
            d = mkdict(rest)
            left = []
            for l in d.args:
                if l.op == "kv" and is_const(l.args[0]) and l.args[0].args[0] == "str" and not any(
                        m.op != "kv" and not (m.op == "del" and m.args[0] is not l.args[0]) for m in d.args[d.args.index(l) + 1:]):
                    kwargs.setdefault(cval(l.args[0]), l.args[1])
                else:
                    left.append(l)
            # keys taken out of the pass-through
            if left and not all(l.op == "del" for l in left):
                kwargs["**"] = left[0].args[0] if len(left) == 1 and left[0].op == "rest" else mk("dict", *left)
        return args, kwargs

    def super_call(self, name, args, kwargs, st):
        fr = st.fr
        owner = fr.func.cls
        cls = fr.cls or owner
        mro = self.uni.mro(cls)
        later = mro[mro.index(owner) + 1:] if owner in mro else []
        g = None
        ext = None
        for c in later:
            if isinstance(c, Cls):
                if name in c.methods:
                    g = c.methods[name]
                    break
            elif ext is None:
                ext = c[1]
        if name == "__init__":
            if ext is not None:
                fa = tuple(self.freeze(x, st) for x in args)
                fk = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
                st.events = st.events + [mk("ev", mk("supercall", ext, name, fa, fk))]
            if g is not None:
                return self.invoke_inline(g, args, kwargs, st, fr.self_term, cls)
            return NONE
        if g is not None:
            if g.kind == "property":
                return self.invoke_property(g, fr.self_term, st)
            if g.key in self.shared and not self.mutates(g) and g.key not in self.inline:
                b = self.bind_opaque(g, [self.freeze(x, st) for x in args], {k: self.freeze(v, st) for k, v in kwargs.items()})
                return mk("icall", g.key, (("self", fr.self_term),) + b)
            return self.invoke_inline(g, args, kwargs, st, fr.self_term, cls)
        fa = tuple(self.freeze(x, st) for x in args)
        fk = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
        r = mk("supercall", ext or "object", name, fa, fk)
        if name == "_updated_ctor_param":
            return self.new_obj(st, mk("dict", mk("rest", r)))
        return r

    def invoke_inline(self, g, args, kwargs, st, self_term, cls):
        old = self.inline
        if g.key in self.stack:
            return self.opaque_call(g, args, kwargs, st, self_term)
        self.inline = set(old) | {g.key}
        try:
            return self.invoke(g, args, kwargs, st, self_term, cls)
        finally:
            self.inline = old

    def method_call(self, base, name, args, kwargs, st, node=None):
        if base.op == "ite" and (name in DICT_MUT or name in INPLACE_METHODS or name in ("append", "extend", "insert")):
            base = self.settle(st, base)
        c = self.content(st, base)
        # known objects
        if base.op == "mref":
            return self.apply(self.load_attr(base, name, st), args, kwargs, st)
        if base.op == "ref":
            return self.apply(mk("ref", f"{base.args[0]}.{name}"), args, kwargs, st)
        if base.op == "cref":
            k = self.uni.classes.get(base.args[0])
            f = self.uni.find_method(k, name) if k else None
            if f is not None:
                if f.kind in ("static",):
                    return self.invoke(f, args, kwargs, st)
                if f.kind == "class":
                    return self.invoke(f, args, kwargs, st, self_term=base, cls=k)
                if args and args[0].op in ("self",):
                    return self.invoke(f, args[1:], kwargs, st, self_term=args[0])
            fa = tuple(self.freeze(x, st) for x in args)
            fk = tuple(sorted((kk, self.freeze(v, st)) for kk, v in kwargs.items()))
            return mk("meth", name, base, fa, fk)
        if base.op in ("self", "clsself") and self.root_cls is not None:
            if (base, name) in st.attrs:
                return self.apply(st.attrs[(base, name)], args, kwargs, st)
            f = self.uni.find_method(self.root_cls, name)
            if f is not None:
                if f.kind == "property":
                    return self.apply(self.invoke_property(f, base, st), args, kwargs, st)
                if f.kind == "static":
                    return self.invoke(f, args, kwargs, st)
                return self.invoke(f, args, kwargs, st, self_term=base)
            return self.ext_method(base, name, args, kwargs, st)
        # containers
        if c.op == "dict":
            r = self.dict_method(base, c, name, args, kwargs, st)
            if r is not None:
                return r
        if c.op == "list" and base.op == "obj":
            r = self.list_method(base, c, name, args, kwargs, st)
            if r is not None:
                return r
        if name in DICT_MUT and base.op in ("param", "attr", "index", "getdef", "smeth", "meth", "icall", "call", "carried", "mu") and name in ("update", "setdefault") and len(args) <= 2:
            d0 = base
            r = self.root(base, st)
            if name == "update":
                lay = self.update_layers(args, kwargs, st)
                self.mutate(st, base, node, lambda cc: mkdict(list(as_layers(cc)) + lay))
                return NONE
            key = self.freeze(args[0], st)
            dv = self.freeze(args[1], st) if len(args) > 1 else NONE
            v = dict_get(base, key, dv)
            self.mutate(st, base, node, lambda cc: mkdict(list(as_layers(cc)) + [kv(key, v)]))
            return v
        if name == "pop" and base.op in ("param", "attr", "smeth", "meth", "icall", "call") and args and (
                (is_const(args[0]) and args[0].args[0] == "str") or len(args) == 2):
            key = self.freeze(args[0], st)
            dv = self.freeze(args[1], st) if len(args) > 1 else None
            v = dict_get(base, key, dv)
            self.mutate(st, base, node, lambda cc: mkdict(list(as_layers(cc)) + [mk("del", key)]))
            return v
        if name == "clear" and base.op == "attr":
            self.mutate(st, base, node, lambda cc: mk("dict"))
            return NONE
        if name == "partition" and not (args and (is_num(args[0]) or args[0].op in ("floordiv", "len", "size", "list"))):
            # text is split with the same word; only positions reorder an array
            return mk("meth", name, self.freeze(c, st), tuple(self.freeze(x, st) for x in args), tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items())))
        if name in INPLACE_METHODS and not (name == "sort" and c.op == "list" and base.op != "obj"):
            fa = tuple(self.freeze(x, st) for x in args)
            fk = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
            self.mutate(st, base, node, lambda cc: mk("inplace", name, self.freeze(cc, st), fa, fk))
            return NONE
        if name == "append" and base.op in ("attr", "param", "mu") and len(args) == 1:
            v = self.freeze(args[0], st)
            self.mutate(st, base, node, lambda cc: mk("list", mk("ext", cc), mk("el", v)))
            return NONE
        if name == "copy" and not args and not kwargs:
            return self.new_obj(st, self.copy_content(c, st))
        if name == "get" and len(args) in (1, 2) and not kwargs:
            return dict_get(self.freeze(c, st), self.freeze(args[0], st), self.freeze(args[1], st) if len(args) == 2 else NONE)
        if name == "__getitem__" and len(args) == 1:
            return self.subscript(base, self.freeze(args[0], st), st)
        if name == "format" and is_const(c) and c.args[0] == "str":
            return self.str_format(cval(c), args, kwargs, st)
        if name == "join" and is_const(c) and cval(c) in ("/",) and len(args) == 1:
            l = self.freeze(args[0], st)
            if l.op == "list" and all(x.op == "el" for x in l.args):
                parts = []
                for x in l.args:
                    if parts:
                        parts.append(c)
                    parts.append(x.args[0])
                return fstr(*parts)
        fb = self.freeze(base, st)
        if fb.op == "new":
            k = self.uni.classes.get(fb.args[0])
            f = self.uni.find_method(k, name) if k else None
            if f is not None:
                fa = [self.freeze(x, st) for x in args]
                fk = {kk: self.freeze(v, st) for kk, v in kwargs.items()}
                return mk("meth", name, fb, (), self.bind_opaque(f, fa, fk))
        if fb.op == "ite" and fb.args[1].op in ("fref",) :
            pass
        return self.ext_method(fb, name, args, kwargs, st)

    def ext_method(self, base, name, args, kwargs, st):
        out = kwargs.get("out")
        if out is not None and out is not NONE:
            v = self.ext_method(base, name, args, {k: x for k, x in kwargs.items() if k != "out"}, st)
            self.mutate(st, out, None, lambda cc: v)
            return v
        fa = tuple(self.freeze(x, st) for x in args)
        fk = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
        return mk("meth", name, base, fa, fk)

    def str_format(self, s, args, kwargs, st):
        parts, rest, n = [], s, 0
        import re
        for piece in re.split(r"(\{\w*\})", s):
            if re.fullmatch(r"\{\w*\}", piece):
                k = piece[1:-1]
                if k == "":
                    parts.append(self.freeze(args[n], st) if n < len(args) else mk("unbound"))
                    n += 1
                elif k.isdigit():
                    parts.append(self.freeze(args[int(k)], st))
                else:
                    parts.append(self.freeze(kwargs.get(k, NONE), st))
            elif piece:
                parts.append(const(piece))
        return fstr(*parts) if parts else const("")

    def copy_content(self, c, st):
        if c.op in ("dict", "list"):
            return c
        if c.op in ("param", "attr", "index", "smeth", "meth", "icall", "getdef"):
            return mk("copyof", c)
        return c

    def pair_layers(self, a, st):
        """the entries a list of pairs stands for, or None"""
        c = self.content(st, a)
        if c.op not in ("list", "tuple") and not (c.op == "call" and c.args[0] == "zip"):
            return None
        items = self.literal_items(a, st)
        if items is not None:
            items = [self.content(st, x) for x in items]
            if all(x.op == "tuple" and len(x.args) == 2 for x in items):
                return [kv(self.freeze(x.args[0], st), x.args[1]) for x in items]
            return None
        if c.op == "list" and len(c.args) == 1 and c.args[0].op == "many":
            h, dom, layers = c.args[0].args
            if len(layers) == 1 and layers[0].op == "el" and layers[0].args[0].op == "tuple" and len(layers[0].args[0].args) == 2:
                return [mk("many", h, dom, (kv(*layers[0].args[0].args),))]
        return None

    def update_layers(self, args, kwargs, st):
        lay = []
        for a in args:
            c = self.content(st, a)
            pairs = self.pair_layers(a, st)
            if pairs is not None:
                lay.extend(pairs)
            elif c.op == "dict":
                lay.extend(spread(c))
            else:
                lay.extend(spread(self.freeze(c, st)))
        for k in sorted(k for k in kwargs if k != "**"):
            lay.append(kv(const(k), kwargs[k]))
        if "**" in kwargs:
            lay.append(mk("rest", kwargs["**"]))
        return lay

    def dict_method(self, base, c, name, args, kwargs, st):
        key = self.freeze(args[0], st) if args else None
        if name == "get":
            v = dict_get(c, key, args[1] if len(args) > 1 else NONE)
            return v
        if name in ("items", "keys", "values") and not args:
            return mk("meth", name, self.freeze(c, st), (), ())
        if name == "copy":
            return self.new_obj(st, c)
        if base.op != "obj":
            return None
        if name == "update":
            lay = self.update_layers(args, kwargs, st)
            st.heap[base] = mkdict(list(c.args) + lay)
            return NONE
        if name == "pop":
            v = dict_get(c, key, args[1] if len(args) > 1 else None)
            st.heap[base] = mkdict(list(c.args) + [mk("del", key)])
            return v
        if name == "setdefault":
            dv = args[1] if len(args) > 1 else NONE
            v = dict_get(c, key, dv)
            st.heap[base] = mkdict(list(c.args) + [kv(key, v)])
            return v
        if name == "clear":
            st.heap[base] = mk("dict")
            return NONE
        if name == "__setitem__":
            st.heap[base] = mkdict(list(c.args) + [kv(key, args[1])])
            return NONE
        return None

    def list_extend(self, st, base, v):
        c = st.heap[base]
        vc = self.content(st, v)
        if vc.op == "list":
            new = list(c.args) + list(vc.args)
        elif vc.op == "tuple":
            new = list(c.args) + [mk("el", x) for x in vc.args]
        elif vc.op == "concat":
            new = list(c.args)
            for x in vc.args:
                new += list(x.args) if x.op == "list" else [mk("ext", self.freeze(x, st))]
        else:
            new = list(c.args) + [mk("ext", self.freeze(vc, st))]
        st.heap[base] = mk("list", *new)

    def list_method(self, base, c, name, args, kwargs, st):
        if name == "append":
            st.heap[base] = mk("list", *(list(c.args) + [mk("el", args[0])]))
            return NONE
        if name == "extend":
            self.list_extend(st, base, args[0])
            return NONE
        if name == "insert" and is_const(args[0]) and cval(args[0]) == 0:
            st.heap[base] = mk("list", *([mk("el", args[1])] + list(c.args)))
            return NONE
        if name == "copy":
            return self.new_obj(st, c)
        if name in ("pop",) and c.args and all(x.op == "el" for x in c.args):
            i = cval(args[0]) if args and is_const(args[0]) else -1
            if not args or is_const(args[0]):
                a = list(c.args)
                v = a.pop(i).args[0]
                st.heap[base] = mk("list", *a)
                return v
        if name in LIST_MUT:
            fa = tuple(self.freeze(x, st) for x in args)
            fk = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
            st.heap[base] = mk("inplace", name, self.freeze(c, st), fa, fk)
            return mk("popped", self.freeze(c, st), fa)
        return None

    def apply(self, fn, args, kwargs, st):
        if fn.op == "clo":
            return self.call_clo(fn, args, kwargs, st)
        if fn.op == "lam":
            h, n, body = fn.args
            if len(args) == n and not kwargs:
                return nsubst(body, {mk("bv", h, i): self.freeze(a, st) for i, a in enumerate(args)})
        if fn.op == "fref":
            f = self.uni.funcs[fn.args[0]]
            return self.invoke(f, args, kwargs, st)
        if fn.op == "cref":
            return self.construct(fn, args, kwargs, st)
        if fn.op == "cbound":
            k = self.uni.classes.get(fn.args[0].args[0])
            f = self.uni.find_method(k, fn.args[1])
            if f.kind == "static":
                return self.invoke(f, args, kwargs, st)
            return self.invoke(f, args, kwargs, st, self_term=fn.args[0], cls=k)
        if fn.op == "superattr":
            return self.super_call(fn.args[0], args, kwargs, st)
        if fn.op == "ref":
            return self.ext_call(fn.args[0], args, kwargs, st)
        if fn.op == "attr":
            b = fn.args[0]
            return self.method_call(b, fn.args[1], args, kwargs, st)
        if fn.op == "ite":
            a, b = st.copy(), st.copy()
            x = self.freeze(self.apply(fn.args[1], args, kwargs, a), a)
            y = self.freeze(self.apply(fn.args[2], args, kwargs, b), b)
            st.become(self.merge_states(fn.args[0], a, b))
            return ite(fn.args[0], x, y)
        if fn.op == "call" and fn.args[0] == "functools.partial":
            return self.apply(fn.args[1][0], list(fn.args[1][1:]) + list(args), {**dict(fn.args[2]), **kwargs}, st)
        if fn.op == "getdef":
            table = self.freeze(fn.args[0], st)
            if table.op == "dict" and 0 < len(table.args) < 8 and all(l.op == "kv" and l.args[1].op == "fref" for l in table.args) and fn.args[2].op == "fref":
                pick = fn.args[2]
                for l in table.args:
                    pick = ite(eq(fn.args[1], l.args[0]), l.args[1], pick)
                return self.apply(pick, args, kwargs, st)
        if fn.op == "gref" and kwargs and "**" not in kwargs:
            fields = self.record_fields(fn.args[0], st)
            if fields and set(kwargs) == set(fields[len(args):]):
                args, kwargs = list(args) + [kwargs[n] for n in fields[len(args):]], {}
        fa = tuple(self.freeze(x, st) for x in args)
        fk = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
        return mk("call", self.freeze(fn, st), fa, fk)

    def record_fields(self, name, st):
        """the names of the fields of a named tuple"""
        r = self.uni.resolve(st.fr.module, name)
        if r is None or not isinstance(r, tuple) or r[0] != "val":
            return None
        e = r[2]
        if isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] == "namedtuple" and len(e.args) == 2:
            if isinstance(e.args[1], (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in e.args[1].elts):
                return [x.value for x in e.args[1].elts]
            if isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str):
                return e.args[1].value.replace(",", " ").split()
        return None

    def construct(self, fn, args, kwargs, st):
        c = self.uni.classes.get(fn.args[0])
        ini = self.uni.find_method(c, "__init__")
        fa = [self.freeze(x, st) for x in args]
        fk = {k: self.freeze(v, st) for k, v in kwargs.items()}
        if any(b == ("ext", "enum.Enum") for b in self.uni.mro(c)):
            return mk("call", "enum:" + c.name, tuple(fa), ())
        if ini is not None:
            return mk("new", c.key, self.bind_opaque(ini, fa, fk))
        return mk("new", c.key, tuple([("*" + str(i), x) for i, x in enumerate(fa)] + sorted(fk.items())))

    def ext_call(self, name, args, kwargs, st):
        if name == "super":
            return mk("superobj")
        if name in ("dict", "collections.OrderedDict"):
            layers = []
            for a in args:
                c = self.content(st, a)
                pairs = self.pair_layers(a, st)
                if pairs is not None:
                    layers.extend(pairs)
                elif c.op == "dict":
                    layers.extend(spread(c))
                elif c.op == "call" and c.args[0] == "zip":
                    layers.append(mk("rest", c))
                else:
                    layers.extend(spread(self.freeze(c, st)))
            if "**" in kwargs:
                layers.extend(spread(kwargs["**"]))
            layers.extend(kv(const(k), v) for k, v in sorted(kwargs.items()) if k != "**")
            return self.new_obj(st, mkdict(layers))
        if name == "list" and len(args) <= 1 and not kwargs:
            if not args:
                return self.new_obj(st, mk("list"))
            c = self.content(st, args[0])
            if c.op == "list":
                return self.new_obj(st, c)
            if c.op == "tuple":
                return self.new_obj(st, mklist(*c.args))
            fc = self.freeze(c, st)
            if fc.op == "meth" and fc.args[0] in ("items", "keys", "values"):
                return self.new_obj(st, self.as_list(fc))
            return self.new_obj(st, mk("list", mk("ext", fc)))
        if name == "tuple" and len(args) == 1:
            c = self.content(st, args[0])
            if c.op == "tuple":
                return c
            if c.op == "list" and all(x.op == "el" for x in c.args):
                return mk("tuple", *[x.args[0] for x in c.args])
        if name == "map" and len(args) == 2 and not kwargs:
            i = fresh_tmp()
            dom, elem = self.iteration(args[1], i, st)
            v = self.freeze(self.apply(args[0], [elem], {}, st), st)
            h, ps = bind("many", [i], (mk("el", v),))
            return self.new_obj(st, mk("list", mk("many", h, dom, ps[0])))
        if name == "filter" and len(args) == 2:
            i = fresh_tmp()
            dom, elem = self.iteration(args[1], i, st)
            v = elem if args[0] is NONE else self.freeze(self.apply(args[0], [elem], {}, st), st)
            h, ps = bind("many", [i], (guard(truth(v), mk("el", elem)),))
            return self.new_obj(st, mk("list", mk("many", h, dom, ps[0])))
        if name in ("any", "all") and len(args) == 1:
            c = self.freeze(args[0], st)
            if c.op == "list" and len(c.args) == 1 and c.args[0].op == "many" and len(c.args[0].args[2]) == 1:
                h, dom, layers = c.args[0].args
                l = layers[0]
                g = TRUE
                if l.op == "g":
                    g, l = l.args
                if l.op == "el":
                    e = truth(l.args[0])
                    if name == "any":
                        return mk("any", h, dom, and_(g, e))
                    return not_(mk("any", h, dom, and_(g, not_(e))))
            if c.op == "list" and all(x.op == "el" for x in c.args):
                es = [truth(x.args[0]) for x in c.args]
                return or_(*es) if name == "any" else and_(*es)
        if name == "len" and len(args) == 1:
            return length(self.freeze(args[0], st))
        if name == "getattr" and len(args) == 2 and is_const(args[1]):
            return self.load_attr(args[0], cval(args[1]), st)
        if name == "setattr" and len(args) == 3 and is_const(args[1]):
            self.set_attr(args[0], cval(args[1]), args[2], st)
            return NONE
        if name == "isinstance" and len(args) == 2:
            return mk("isinst", self.freeze(args[0], st), self.freeze(args[1], st))
        if name == "functools.partial":
            f0 = args[0]
            if f0.op == "clo":
                node, fr, dst = self.clos[f0]
                ps = [x.arg for x in node.args.posonlyargs + node.args.args][len(args) - 1:]
                ps = [p for p in ps if p not in kwargs]
                nd = len(node.args.defaults)
                if "**" not in kwargs and not nd:
                    tmps = [fresh_tmp() for _ in ps]
                    sc = st.copy()
                    v = self.call_clo(f0, list(args[1:]) + tmps, kwargs, sc)
                    v = self.freeze(v, sc)
                    h, pp = bind("lam", tmps, v)
                    return mk("lam", h, len(tmps), pp[0])
        out = kwargs.get("out")
        if out is None and name in OUT_AT and len(args) == OUT_AT[name] + 1:
            args, out = list(args[:-1]), args[-1]
        if name == "numpy.nan_to_num" and is_const(kwargs.get("copy", NONE)) and cval(kwargs.get("copy", NONE)) is False and args:
            out, kwargs = args[0], {k: x for k, x in kwargs.items() if k != "copy"}
        if out is not None and out is not NONE and name.startswith("numpy."):
            rest = {k: x for k, x in kwargs.items() if k != "out"}
            v = self.freeze(self.ext_call(name, args, rest, st), st)
            if v is not None:
                self.mutate(st, out, None, lambda cc: v)
                return v
        if name == "numpy.putmask" and len(args) == 3 and not kwargs:
            m, v = as_truth(self.freeze(args[1], st)), self.freeze(args[2], st)
            if m is not None and is_num(v):
                self.mutate(st, args[0], None, lambda cc: setitem(self.freeze(cc, st), m, v))
                return NONE
        if (name in INPLACE_FUNCS or name.startswith("numpy.") and name.endswith(".at")) and args:
            fa = tuple(self.freeze(x, st) for x in args)
            fk = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
            self.mutate(st, args[0], None, lambda cc: mk("inplace", name, self.freeze(cc, st), fa[1:], fk))
            return NONE
        if name == "sorted" and len(args) == 1 and not kwargs:
            c = self.freeze(args[0], st)
            return call("sorted", (c,))
        fa = tuple(self.freeze(x, st) for x in args)
        fk = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
        if name == "bool" and len(fa) == 1:
            return truth(fa[0])
        t = mk("call", name, fa, fk)
        if name in ALLOC:
            return self.new_obj(st, t)
        return t

    def as_list(self, m):
        i = fresh_tmp()
        dom, elem = self.iter_term(m, i)
        h, ps = bind("many", [i], (mk("el", elem),))
        return mk("list", mk("many", h, dom, ps[0]))


# ---------------------------------------------------------------- helpers
def as_layers(c):
    if c.op == "dict":
        return c.args
    if c.op == "copyof":
        return (mk("rest", c.args[0]),)
    return (mk("rest", c),)


def as_truth(m):
    """a mask, however it is spelt"""
    if is_bool(m):
        return m
    if m.op == "mul" and all(is_bool(z) for z in m.args):
        return and_(*m.args)
    if m.op == "add" and len(m.args) == 2:
        for p, q in (m.args, m.args[::-1]):
            if is_num(p) and cval(p) == 1 and q.op == "mul" and any(is_num(z) and cval(z) == -1 for z in q.args):
                rest = [z for z in q.args if not is_num(z)]
                t = as_truth(rest[0] if len(rest) == 1 else mk("mul", *rest)) if len(rest) == len(q.args) - 1 else None
                return not_(t) if t is not None else None
    return None


def spread(c):
    """the layers a table adds to those it is laid over"""
    if c.op == "dict" and any(m.op == "del" or m.op == "g" and m.args[1].op == "del" for m in c.args):
        return (mk("rest", c),)
    return as_layers(c)


def setitem(c, k, v):
    if c.op == "setitem" and c.args[1] is k:
        c = c.args[0]
    return mk("setitem", c, k, v)


def length(c):
    if c.op == "list" and all(x.op == "el" for x in c.args):
        return const(len(c.args))
    if c.op == "tuple":
        return const(len(c.args))
    if c.op == "list" and len(c.args) == 1 and c.args[0].op == "many" and len(c.args[0].args[2]) == 1 \
            and c.args[0].args[2][0].op == "el":
        return c.args[0].args[1]
    if c.op == "shape":
        return mk("ndim", c.args[0])
    return mk("len", c)


def additive(new, mu):
    if new.op == "add" and mu in new.args:
        rest = [x for x in new.args if x is not mu]
        if not any(x is mu for r in rest for x in walk(r)):
            return add(*rest)
    if new.op == "ite":
        a, b = new.args[1], new.args[2]
        ea = const(0) if a is mu else additive(a, mu)
        eb = const(0) if b is mu else additive(b, mu)
        if ea is not None and eb is not None and not any(x is mu for x in walk(new.args[0])):
            return ite(new.args[0], ea, eb)
    return None


def fill_step(new, mu):
    if new is mu:
        return []
    if new.op == "setitem":
        inner = fill_step(new.args[0], mu)
        if inner is None:
            return None
        if any(x is mu for a in new.args[1:] for x in walk(a)):
            return None
        return inner + [mk("set", new.args[1], new.args[2])]
    if new.op == "ite":
        a, b = fill_step(new.args[1], mu), fill_step(new.args[2], mu)
        if a is None or b is None or any(x is mu for x in walk(new.args[0])):
            return None
        return merge_layers(new.args[0], a, b)
    return None


def is_bool_acc(new, mu):
    if new.op == "or" and mu in new.args:
        r = or_(*[x for x in new.args if x is not mu])
        if not any(x is mu for x in walk(r)):
            return "or", r
    if new.op == "and" and mu in new.args:
        r = and_(*[x for x in new.args if x is not mu])
        if not any(x is mu for x in walk(r)):
            return "and", not_(r)
    if new.op == "ite" and new.args[1] is TRUE and new.args[2] is mu:
        return "or", new.args[0]
    if new.op == "ite" and new.args[1] is FALSE and new.args[2] is mu:
        return "and", new.args[0]
    if new.op == "ite" and new.args[1] is mu and new.args[2] is TRUE:
        return "or", not_(new.args[0])
    if new.op == "ite" and new.args[1] is mu and new.args[2] is FALSE:
        return "and", not_(new.args[0])
    return None


def compare(op, a, b):
    if isinstance(op, ast.Lt):
        return lt(a, b)
    if isinstance(op, ast.Gt):
        return lt(b, a)
    if isinstance(op, ast.LtE):
        return le(a, b)
    if isinstance(op, ast.GtE):
        return le(b, a)
    if isinstance(op, ast.Eq):
        return eq(a, b)
    if isinstance(op, ast.NotEq):
        return not_(eq(a, b))
    if isinstance(op, (ast.Is, ast.IsNot)) and "enum" in (a.op, b.op):
        return eq(a, b) if isinstance(op, ast.Is) else not_(eq(a, b))
    if isinstance(op, ast.Is):
        return isnone(a) if b is NONE else (isnone(b) if a is NONE else (mk("is", a, b) if not (is_const(a) and is_const(b)) else eq(a, b)))
    if isinstance(op, ast.IsNot):
        return not_(isnone(a) if b is NONE else mk("is", a, b))
    if isinstance(op, (ast.In, ast.NotIn)):
        if b.op == "meth" and b.args[0] == "keys":
            b = b.args[1]
        if b.op == "set":
            r = or_(*[eq(a, x) for x in b.args])
        else:
            r = member(a, b)
        return r if isinstance(op, ast.In) else not_(r)
    raise Unsupported("compare")


def format_percent(s, b):
    import re
    pieces = re.split(r"(%[sdifg])", s)
    specs = [p for p in pieces if re.fullmatch(r"%[sdifg]", p)]
    if "%%" in s or len(specs) == 0:
        return mk("fmt", const(s), b)
    vals = list(b.args) if b.op == "tuple" else [b]
    if len(vals) != len(specs):
        return mk("fmt", const(s), b)
    parts = []
    for p in pieces:
        if re.fullmatch(r"%[sdifg]", p):
            parts.append(vals.pop(0))
        elif p:
            parts.append(const(p))
    return fstr(*parts)


def has_loop_exit(body):
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Break, ast.Continue)):
                return True
    return False


def dict_use(name, body):
    """is name[...] used with string-ish loop key (iteration over a mapping's keys)?"""
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == name:
                return True
    return False


def is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            # not inside a nested function
            return True
    return False


class Summary:
    """outcome of a function: returned value, final attributes, events, raises"""

    def __init__(self, ip, func, tree):
        self.func = func
        self.ret = self._ret(ip, tree)
        self.attrs = self._attrs(ip, tree)
        self.raises = [(and_(*cs), l.value) for cs, l in leaves(tree) if l.kind == "raise"]
        self.events = self._events(ip, tree) or []
        self.tree = tree
        self.nleaves = sum(1 for _ in leaves(tree))

    def _ret(self, ip, t):
        if isinstance(t, Br):
            return ite(t.c, self._ret(ip, t.a), self._ret(ip, t.b))
        if t.kind == "raise":
            return t.value
        if t.kind == "ret":
            return ip.freeze(t.value, t.st)
        return NONE

    def _attrs(self, ip, tree):
        keys = {}
        for _, l in leaves(tree):
            for k in l.st.attrs:
                kk = (ip.freeze(k[0], l.st), k[1])
                keys[kk] = True
        out = {}
        for k in keys:
            own = self.func.name == "__init__" and k[0].op == "self"
            def go(t):
                if isinstance(t, Br):
                    a, b = go(t.a), go(t.b)
                    return b if a is None else a if b is None else ite(t.c, a, b)
                if own and t.kind == "raise":       # nobody ever sees an object which could not be made
                    return None
                for kk, v in t.st.attrs.items():
                    if kk[1] == k[1] and ip.freeze(kk[0], t.st) is k[0]:
                        return ip.freeze(v, t.st)
                return mk("attr", *k)
            out[k] = go(tree)
        return {k: v for k, v in out.items() if v is not None and v is not mk("attr", *k)}

    def _events(self, ip, t):
        if isinstance(t, Br):
            a, b = self._events(ip, t.a), self._events(ip, t.b)
            if self.func.name == "__init__" and (a is None or b is None):
                return b if a is None else a
            return merge_layers(t.c, a, b)
        if self.func.name == "__init__" and t.kind == "raise":
            return None
        return [ip.freeze(e, t.st) for e in t.st.events]
