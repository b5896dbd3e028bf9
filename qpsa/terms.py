"""Hash-consed value-flow terms.

A term describes how a value is *computed* (global value numbering); nothing is
ever executed.  Terms are interned, so equal terms are the same object, in and
across the analysed universes (the repository and the reference)."""

_TABLE = {}


class T:
    __slots__ = ("op", "args", "id", "__weakref__")

    def __init__(self, op, args, id_):
        self.op, self.args, self.id = op, args, id_

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


def mk(op, *args):
    key = (op, args)
    t = _TABLE.get(key)
    if t is None:
        t = T(op, args, len(_TABLE))
        _TABLE[key] = t
    return t


def const(v):
    if isinstance(v, float) and not isinstance(v, bool) and v == v and abs(v) < 1e15 and v == int(v):
        v = int(v)
    return mk("const", type(v).__name__, repr(v) if isinstance(v, (float, complex)) else v)


def is_const(t):
    return isinstance(t, T) and t.op == "const"


def cval(t):
    """python value of a constant term"""
    ty, v = t.args
    if ty == "float":
        return float(v)
    if ty == "complex":
        return complex(v)
    return v


def is_num(t):
    return is_const(t) and t.args[0] in ("int", "float")


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
BOTTOM = mk("bottom")


def children(t):
    out = []
    for a in t.args:
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    out.append(b)
                elif isinstance(b, tuple):
                    out.extend(c for c in b if isinstance(c, T))
    return out


def walk(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def rebuild(t, fn):
    """apply fn to every direct child term, re-making the node"""
    def conv(a):
        if isinstance(a, T):
            return fn(a)
        if isinstance(a, tuple):
            return tuple(conv(b) for b in a)
        return a
    new = tuple(conv(a) for a in t.args)
    return t if new == t.args else mk(t.op, *new)


def subst(t, mapping, memo=None):
    memo = {} if memo is None else memo
    def go(x):
        if x in mapping:
            return mapping[x]
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def show(t, depth=12):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    o, a = t.op, t.args
    if o == "const":
        return repr(cval(t))
    if o == "param":
        return a[0]
    if o == "self":
        return "self"
    if o == "ref":
        return a[0]
    if o == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if o == "index":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == "slice":
        return ":".join("" if x is NONE else show(x, d) for x in a)
    if o == "call":
        s = [show(x, d) for x in a[1]] + [f"{k}={show(v, d)}" for k, v in a[2]]
        f = a[0] if isinstance(a[0], str) else show(a[0], d)
        return f"{f}({', '.join(s)})"
    if o == "meth":
        s = [show(x, d) for x in a[2]] + [f"{k}={show(v, d)}" for k, v in a[3]]
        return f"{show(a[1], d)}.{a[0]}({', '.join(s)})"
    if o == "new":
        return f"new {a[0]}({', '.join(f'{k}={show(v, d)}' for k, v in a[1])})"
    if o == "ite":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if o in ("add", "mul", "and", "or", "concat"):
        sym = {"add": " + ", "mul": "*", "and": " and ", "or": " or ", "concat": " ++ "}[o]
        return "(" + sym.join(show(x, d) for x in a) + ")"
    if o in ("lt", "le", "eq", "in", "is"):
        sym = {"lt": "<", "le": "<=", "eq": "==", "in": "in", "is": "is"}[o]
        return f"({show(a[0], d)} {sym} {show(a[1], d)})"
    if o == "not":
        return f"not {show(a[0], d)}"
    if o == "isnone":
        return f"({show(a[0], d)} is None)"
    if o == "pow":
        return f"{show(a[0], d)}**{show(a[1], d)}"
    if o == "tuple":
        return "(" + ", ".join(show(x, d) for x in a) + ",)"
    if o == "list":
        return "[" + ", ".join(show(x, d) for x in a) + "]"
    if o == "el":
        return show(a[0], d)
    if o == "kv":
        return f"{show(a[0], d)}: {show(a[1], d)}"
    if o == "dict":
        return "{" + ", ".join(show(x, d) for x in a) + "}"
    return f"{o}<" + ", ".join(show(x, d) if isinstance(x, (T, tuple)) else str(x) for x in a) + ">"
