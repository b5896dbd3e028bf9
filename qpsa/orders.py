"""Rules about order and ownership, read off the syntax tree with the helpers of a class followed: what is checked before state changes, what is kept of an
argument, what is handed out, and what is released."""
import ast

from .clauses import memo
from .rules import Result, where, functions, summ, use, in_cone, leaves_of, SELF
from .terms import walk, show

MUTATING = {"update", "pop", "popitem", "clear", "setdefault", "append", "extend", "insert", "remove", "sort", "fill", "resize", "put"}
STATE = ("update", "update_objdata", "set_ancil", "add_to_ancil", "append")


def raises(w):
    """functions of the package which refuse arguments (contain a raise, or call one that does) -> set of keys"""
    r = getattr(w, "_raising", None)
    if r is not None:
        return r
    U = w.U
    direct, calls = set(), {}
    for k, f in U.funcs.items():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Raise):
                direct.add(k)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                g = U.resolve(f.module, n.func.id)
                if g is not None and getattr(g, "key", None) in U.funcs:
                    calls.setdefault(k, set()).add(g.key)
    out = set(direct)
    while True:
        more = {k for k, c in calls.items() if k not in out and c & out}
        if not more:
            break
        out |= more
    w._raising = out
    return out


class Line:
    """checks and writes of a method in the order in which they happen; helpers of the class are followed"""

    def __init__(self, w, cls):
        self.w, self.cls, self.U = w, cls, w.U
        self.out = []
        self.raising = raises(w)

    def run(self, f, env, depth=0):
        self.alias = {}
        self.block(f.node.body, dict(env), f, depth)

    def block(self, body, env, f, depth):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(st, ast.Raise):
                self.out.append(("check", "raise", "", st.lineno))
                self.out.append(("end", "", "", st.lineno))
                continue
            if isinstance(st, ast.Return):
                if st.value is not None:
                    self.expr(st.value, env, f, depth)
                self.out.append(("return", "", "", st.lineno))
                continue
            if isinstance(st, (ast.If, ast.While)):
                self.expr(st.test, env, f, depth)
                if isinstance(st, ast.While):
                    self.block(st.body, env, f, depth)
                    continue
                before, sides = self.out, []
                for side in (st.body, st.orelse):
                    self.out = []
                    inner = dict(env)
                    self.block(side, inner, f, depth)
                    sides.append((self.out, inner))
                self.out = before
                self.out.append(("either", sides[0][0], sides[1][0], st.lineno))
                for n, v in sides[1][1].items():
                    if n not in sides[0][1]:
                        sides[0][1][n] = v
                env.update({n: v for n, v in sides[0][1].items() if n in sides[1][1] and sides[1][1][n] == v or n not in env or isinstance(v, tuple)})
                continue
            if isinstance(st, ast.For):
                self.expr(st.iter, env, f, depth)
                self.block(st.body, env, f, depth)
                self.block(st.orelse, env, f, depth)
                continue
            if isinstance(st, ast.With):
                for i in st.items:
                    self.expr(i.context_expr, env, f, depth)
                self.block(st.body, env, f, depth)
                continue
            if isinstance(st, ast.Try):
                self.block(st.body, env, f, depth)
                # a handler that puts things back and raises again is no check after the fact
                self.block(st.orelse, env, f, depth)
                self.block(st.finalbody, env, f, depth)
                continue
            if isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                if st.value is not None:
                    self.expr(st.value, env, f, depth)
                targets = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in targets:
                    for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        a = self.state_of(x, env)
                        if a and not isinstance(x, ast.Name):
                            self.out.append(("write", a, "", st.lineno))
                        if isinstance(x, ast.Name):
                            env[x.id] = self.own(st.value, env)
                continue
            for n in ast.iter_child_nodes(st):
                if isinstance(n, ast.expr):
                    self.expr(n, env, f, depth)

    def own(self, e, env):
        """what a local name stands for: ('self', attr) when it is the object's own storage, else the source of the value"""
        if isinstance(e, ast.IfExp):
            for b in (e.body, e.orelse):
                r = self.own(b, env)
                if isinstance(r, tuple):
                    return r
            return ast.unparse(e)
        if isinstance(e, ast.BoolOp):
            for b in e.values:
                r = self.own(b, env)
                if isinstance(r, tuple):
                    return r
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self":
            return ("self", e.attr)
        if isinstance(e, ast.Name):
            return env.get(e.id, e.id)
        return ast.unparse(e) if e is not None else None

    def state_of(self, x, env):
        while isinstance(x, ast.Subscript):
            x = x.value
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
            return x.attr
        if isinstance(x, ast.Name) and isinstance(env.get(x.id), tuple):
            return env[x.id][1]
        return None

    def expr(self, e, env, f, depth):
        if isinstance(e, (ast.Lambda, ast.GeneratorExp)):
            return
        for n in ast.iter_child_nodes(e):
            if isinstance(n, (ast.expr, ast.keyword, ast.comprehension)):
                self.expr(n.value if isinstance(n, ast.keyword) else n.iter if isinstance(n, ast.comprehension) else n, env, f, depth)
        if not isinstance(e, ast.Call):
            return
        fn = e.func
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name) and fn.value.id == "self":
                m = self.U.find_method(self.cls, fn.attr)
                if m is not None and depth < 4 and m.kind not in ("property",):
                    a = [x.arg for x in m.node.args.args if x.arg != "self"]
                    sub = {}
                    for p, x in zip(a, e.args):
                        sub[p] = self.own(x, env)
                    for k in e.keywords:
                        if k.arg:
                            sub[k.arg] = self.own(k.value, env)
                    before, self.out = self.out, []
                    self.block(m.node.body, sub, m, depth + 1)
                    before.append(("sub", self.out, "", e.lineno))
                    self.out = before
                elif m is None and "gen_func" in fn.attr:
                    self.out.append(("check", "the constructor", "", e.lineno))
                return
            if fn.attr in MUTATING:
                a = self.state_of(fn.value, env)
                if a and (isinstance(fn.value, ast.Name) or isinstance(fn.value, ast.Attribute)):
                    self.out.append(("write", a, "", e.lineno))
            return
        if isinstance(fn, ast.Name):
            g = self.U.resolve(f.module, fn.id)
            if g is not None and getattr(g, "key", None) in self.raising:
                arg = self.own(e.args[0], env) if e.args else ""
                self.out.append(("check", g.key, str(arg), e.lineno))


@memo
def checked_first(w):
    r = Result("checked-first", "a change of an ensemble's content is refused before anything of it is changed: no state is written ahead of a check that may still fail")
    for k, f in functions(w):
        if f.cls is None or f.cls.name != "Ensemble" or f.name not in STATE:
            continue
        ln = Line(w, f.cls)
        env = {x.arg: x.arg for x in f.node.args.args if x.arg != "self"}
        ln.run(f, env)
        bad = None

        def go(events, states, left):
            """(checks already made, first state written) for each way through; `left` takes those which return"""
            nonlocal bad
            for kind, what, arg, line in events:
                if kind == "either":
                    states = (go(what, states, left) | go(arg, states, left))
                    if len(states) > 64:
                        states = set(sorted(states, key=str)[:64])
                    continue
                if kind == "sub":
                    back = set()
                    states = go(what, states, back) | back
                    continue
                if kind == "return":
                    left |= states
                    return set()
                if kind == "end":
                    return set()
                new = set()
                for done, written in states:
                    if kind == "check":
                        if written and (what, arg) not in done:
                            bad = bad or f"self.{written} is changed (line of {k}) before {what}({arg}) has accepted the new content"
                        done = done | {(what, arg)}
                    elif written is None:
                        written = what
                    new.add((done, written))
                states = new
            return states

        go(ln.out, {(frozenset(), None)}, set())
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- replaced state
@memo
def replaced(w):
    r = Result("state-replaced", "an update replaces everything the ensemble holds: nothing of the earlier content (distribution, extra table, cached values) stays behind "
               "under any condition")
    for k, f in functions(w):
        if k != "Ensemble.update":
            continue
        s = summ(w, f)
        if s is None:
            r.unknown(k, where(f), "not analysable")
            continue
        own = {n: w.canon(t) for (b, n), t in s.attrs.items() if b == SELF or b is SELF}
        bad = None
        for n, t in own.items():
            old = [x for p, leaf in leaves_of(t) for x in walk(leaf) if x.op == "attr" and x.args[0] is SELF and x.args[1] in own]
            if old:
                bad = f"self.{n} may keep earlier content: {show(t, 5)[:200]}"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- keys of caches
COPIES = {"array", "copy", "deepcopy", "tuple", "list", "float", "tobytes", "str", "frozenset", "hash", "sort", "unique", "concatenate", "tolist", "full", "repr",
          "sorted", "hstack", "vstack", "linspace", "append"}
VIEWS = {"asarray", "ravel", "reshape", "squeeze", "atleast_1d", "atleast_2d", "asanyarray", "ascontiguousarray", "transpose", "view", "expand_dims", "broadcast_to",
         "asfarray", "swapaxes", "require"}


def alias(e, env):
    """the parameter whose storage the value shares, if any"""
    if isinstance(e, ast.Name):
        return env.get(e.id)
    if isinstance(e, ast.Call):
        fn = e.func
        nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, "id", "")
        if nm == "array" and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and not k.value.value for k in e.keywords):
            return alias(e.args[0], env) if e.args else None
        if nm in VIEWS:
            if e.args and not (isinstance(fn, ast.Attribute) and nm in ("ravel", "reshape", "squeeze", "transpose", "view", "swapaxes") and not is_np(fn.value)):
                return alias(e.args[0], env)
            if isinstance(fn, ast.Attribute):
                return alias(fn.value, env)
        return None
    if isinstance(e, ast.Subscript) and isinstance(e.slice, (ast.Slice, ast.Tuple)):
        return alias(e.value, env)
    if isinstance(e, ast.IfExp):
        return alias(e.body, env) or alias(e.orelse, env)
    if isinstance(e, (ast.Tuple, ast.List)):
        for x in e.elts:
            a = alias(x, env)
            if a:
                return a
    if isinstance(e, ast.Dict):
        for x in e.values:
            a = alias(x, env)
            if a:
                return a
    return None


def is_np(e):
    return isinstance(e, ast.Name) and e.id in ("np", "numpy")


@memo
def own_key(w):
    r = Result("own-key", "what an ensemble keeps to recognise a repeated query is a copy of the argument, not the caller's array (which may change afterwards)")
    for k, f in functions(w):
        if f.cls is None or f.cls.name != "Ensemble" or f.name.startswith("__") or f.name in STATE:
            continue
        env = {x.arg: x.arg for x in f.node.args.args + f.node.args.kwonlyargs if x.arg != "self"}
        bad, wrote = None, False
        for n in ordered(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        env[t.id] = alias(n.value, env)
                    base = t
                    while isinstance(base, ast.Subscript):
                        base = base.value
                    if isinstance(base, ast.Attribute) and isinstance(base.value, ast.Name) and base.value.id == "self":
                        wrote = True
                        a = alias(n.value, env)
                        if a and not isinstance(n.value, ast.Name) or isinstance(n.value, ast.Name) and env.get(n.value.id):
                            bad = f"self.{base.attr} keeps the caller's {a} itself: changing it later makes an old answer look current"
        if bad:
            r.fail(k, where(f), bad)
        elif wrote:
            r.good(k)
    return r


def ordered(node):
    out = []
    def go(body):
        for st in body:
            out.append(st)
            for fld in ("body", "orelse", "finalbody"):
                sub = getattr(st, fld, None)
                if isinstance(sub, list) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    go(sub)
            for h in getattr(st, "handlers", []):
                go(h.body)
    go(node.body)
    return out


# ---------------------------------------------------------------- tables handed out
def stored(e, env):
    """the attribute a value is, without a copy"""
    if isinstance(e, ast.Name):
        return env.get(e.id)
    if isinstance(e, ast.Attribute):
        x = e
        while isinstance(x, ast.Attribute):
            x = x.value
        if isinstance(x, ast.Name) and x.id in ("self", "cls"):
            return ast.unparse(e)
        if isinstance(x, ast.Name) and env.get(x.id):
            return ast.unparse(e)
    if isinstance(e, ast.IfExp):
        return stored(e.body, env) or stored(e.orelse, env)
    return None


HANDED = {"Ensemble.metadata", "Ensemble.objdata", "Ensemble.build_tables", "Pdf_rows_gen._updated_ctor_param", "Pdf_gen._updated_ctor_param",
          "Pdf_gen.updated_ctor_param"}


@memo
def handed_out(w):
    r = Result("handed-out", "the tables an ensemble hands out (settings, per-PDF data) are its callers' to change: a new table each time, never the one it keeps")
    for k, f in functions(w):
        if f.cls is None or not (k in HANDED or f.name == "_updated_ctor_param"):
            continue
        env, bad = {}, None
        for n in ordered(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                env[n.targets[0].id] = stored(n.value, env)
            if isinstance(n, ast.Return) and n.value is not None:
                s = stored(n.value, env)
                if s:
                    bad = f"hands out {s} itself; callers take entries out of the table they are given"
        if bad:
            r.fail(k, where(f), bad)
        else:
            r.good(k)
    return r


# ---------------------------------------------------------------- files
OPENS = {"readHdf5Group", "File", "open", "openHdf5"}


@memo
def released(w):
    r = Result("released", "every file opened by a reader is closed however the reading ends")
    for k, f in functions(w):
        if not f.module.name.startswith("qp.factory"):
            continue
        handles = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                fn = n.value.func
                nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, "id", "")
                if nm in OPENS:
                    t = n.targets[0]
                    h = t.elts[-1] if isinstance(t, (ast.Tuple, ast.List)) and t.elts else t
                    if isinstance(h, ast.Name) and h.id != "_":
                        handles.setdefault(h.id, n.lineno)
        for h, line in sorted(handles.items()):
            ok = False
            for n in ast.walk(f.node):
                if isinstance(n, ast.Try) and any(mentions(x, h) for x in n.finalbody):
                    ok = True
                if isinstance(n, (ast.With, ast.AsyncWith)) and any(mentions(i.context_expr, h) for i in n.items):
                    ok = True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("enter_context", "callback", "push") and any(
                        mentions(a, h) for a in n.args):
                    ok = True
                if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None and mentions(n.value, h):
                    ok = True
            other = closed_with_another(f.node, h, set(handles) - {h})
            if ok and other:
                r.fail(k, where(f), f"the file behind {h} is closed only in a case that {other} decides on")
            elif ok:
                r.good(f"{k}:{h}")
            else:
                r.fail(k, where(f), f"the file behind {h} stays open when reading it fails: its close is not in a finally clause or with statement")
    return r


def closed_with_another(node, h, others):
    """the handle on which the closing of h depends, when every closing of it is under such a condition"""
    found = []

    def go(n, tests):
        if isinstance(n, ast.If):
            for x in n.body:
                go(x, tests + [n.test])
            for x in n.orelse:
                go(x, tests + [n.test])
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "close" and isinstance(n.func.value, ast.Name) and n.func.value.id == h:
            found.append(tests)
        for x in ast.iter_child_nodes(n):
            go(x, tests)
    for n in ast.walk(node):
        if isinstance(n, ast.Try):
            for x in n.finalbody:
                go(x, [])
    hows = [next((o for t in ts for o in sorted(others) if mentions(t, o) and not mentions(t, h)), None) for ts in found]
    return hows[0] if hows and all(hows) else None


def mentions(n, name):
    return any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n))


# ---------------------------------------------------------------- kinds of metrics
@memo
def kinds(w):
    r = Result("metric-kind", "each metric class is of the kind it was: the declared input type (own or inherited) and the base that supplies its digest and finalising "
               "steps are those of its definition")
    for k, rc in sorted(w.R.classes.items()):
        if not rc.module.name.startswith("qp.metrics"):
            continue
        uc = w.U.classes.get(k)
        if uc is None:
            continue
        kr, ku = kind_of(w.R, rc), kind_of(w.U, uc)
        if kr is None:
            continue
        if kr != ku:
            r.fail(f"{k}:<class>", f"{uc.module.path}:{uc.node.lineno}", f"declared as {ku} where its definition is {kr}")
            continue
        a, b = bases(w.R, rc), bases(w.U, uc)
        a = {x for x in a if x in w.U.classes}
        b = {x for x in b if x in w.R.classes}
        if a != b:
            r.fail(f"{k}:<class>", f"{uc.module.path}:{uc.node.lineno}", f"derives from {', '.join(sorted(b)) or 'nothing'} where its definition derives from {', '.join(sorted(a))}")
        else:
            r.good(f"{k}:<class>")
    return r


def bases(U, c):
    return {x.key for x in U.mro(c) if x is not c and not isinstance(x, tuple)}


def kind_of(U, c):
    for x in U.mro(c):
        if isinstance(x, tuple):
            continue
        for n in x.node.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "metric_input_type":
                return ast.unparse(n.value).split(".")[-1]
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == "metric_input_type" and n.value is not None:
                return ast.unparse(n.value).split(".")[-1]
    return None


for _p in ("C03", "C04", "C05"):
    use(_p, in_cone(checked_first)(_p))
use("C04", in_cone(replaced)("C04"))
use("C04", in_cone(own_key)("C04"))
use("C06", in_cone(handed_out)("C06"))
for _p in ("C13", "C14"):
    use(_p, in_cone(released)(_p))
use("C19", in_cone(kinds)("C19"))

ALL = ("checked_first", "replaced", "own_key", "handed_out", "released", "kinds")
