"""Development tool: syntactic variants of every function, to measure the engine.
kinds "keep*" must be judged quiet, kinds "break*" should be reported.  No check uses this."""
import ast, copy, random, itertools

PURE_NODES = (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Call, ast.Subscript, ast.Tuple, ast.List, ast.Compare)


def funcs(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n, None
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield m, n


def locals_of(fn):
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    for x in (a.vararg, a.kwarg):
        if x:
            params.add(x.arg)
    stores = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            stores.add(n.id)
    return params, stores - params


def blocks(fn):
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, b


def has_nested(fn):
    return any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(fn) if n is not fn)


# ------------------------------------------------------------------ keep
def keep_noop(fn, cls, mod, rnd):
    fn.body.insert(0 if not _doc(fn) else 1, ast.parse("_unused_marker = None").body[0])
    yield "noop"


def _doc(fn):
    return fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant)


def keep_rename(fn, cls, mod, rnd):
    _, loc = locals_of(fn)
    if not loc or any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fn)):
        return
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in loc:
            n.id = n.id + "_renamed"
        if isinstance(n, ast.ExceptHandler) and n.name in loc:
            n.name += "_renamed"
    yield "rename"


def keep_return_temp(fn, cls, mod, rnd):
    done = False
    for n, b in blocks(fn):
        for i, s in reversed(list(enumerate(b))):
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
                b[i:i + 1] = [ast.Assign([ast.Name("out_tmp", ast.Store())], s.value), ast.Return(ast.Name("out_tmp", ast.Load()))]
                done = True
    if done:
        yield "return_temp"


def hoistable(s):
    if isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) and s.value is not None:
        return s.value
    return None


def keep_hoist_args(fn, cls, mod, rnd):
    """arguments of the outermost call become variables"""
    k = 0
    for n, b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            v = hoistable(s)
            if isinstance(v, ast.Call) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)):
                pre = []
                for j, a in enumerate(v.args):
                    if isinstance(a, (ast.BinOp, ast.Call, ast.Subscript, ast.Attribute)):
                        nm = f"arg_tmp{k}"; k += 1
                        pre.append(ast.Assign([ast.Name(nm, ast.Store())], a))
                        v.args[j] = ast.Name(nm, ast.Load())
                for kw in v.keywords:
                    if kw.arg and isinstance(kw.value, (ast.BinOp, ast.Call, ast.Subscript, ast.Attribute)):
                        nm = f"arg_tmp{k}"; k += 1
                        pre.append(ast.Assign([ast.Name(nm, ast.Store())], kw.value))
                        kw.value = ast.Name(nm, ast.Load())
                b[i:i] = pre
                i += len(pre)
            i += 1
    if k:
        yield "hoist_args"


def keep_flip_if(fn, cls, mod, rnd):
    d = 0
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and n.orelse:
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
            d = 1
        elif isinstance(n, ast.IfExp):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
            d = 1
    if d:
        yield "flip_if"


def keep_else_after_return(fn, cls, mod, rnd):
    d = 0
    for n, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and b[i + 1:]:
                s.orelse = b[i + 1:]
                del b[i + 1:]
                d = 1
                break
    if d:
        yield "else_after_return"


def keep_ifexp_to_if(fn, cls, mod, rnd):
    d = 0
    for n, b in list(blocks(fn)):
        for i, s in enumerate(list(b)):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1:
                v = s.value
                b[b.index(s)] = ast.If(v.test, [ast.Assign([s.targets[0]], v.body)], [ast.Assign([copy.deepcopy(s.targets[0])], v.orelse)])
                d = 1
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                v = s.value
                b[b.index(s)] = ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
                d = 1
    if d:
        yield "ifexp_to_if"


def free_names(node, names):
    return [n for n in dict.fromkeys(x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)) if n in names]


def keep_helper_function(fn, cls, mod, rnd):
    """the last returned/assigned expression moves into a module function"""
    params, loc = locals_of(fn)
    cands = []
    for n, b in blocks(fn):
        for s in b:
            v = hoistable(s)
            if v is not None and isinstance(v, (ast.BinOp, ast.Call, ast.IfExp, ast.ListComp, ast.Dict)):
                if any(isinstance(x, (ast.Lambda, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(v)):
                    continue
                if any(isinstance(x, ast.Name) and x.id in ("super", "locals") for x in ast.walk(v)):
                    continue
                if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in params for x in ast.walk(v)):
                    continue
                cands.append(s)
    # names of enclosing functions
    if not cands or has_nested(fn):
        return
    for s in (cands if len(cands) <= 3 else rnd.sample(cands, 3)):
        pass
    s = rnd.choice(cands)
    v = s.value
    comp = {x.id for c in ast.walk(v) if isinstance(c, ast.comprehension) for x in ast.walk(c.target) if isinstance(x, ast.Name)}
    fr = [n for n in free_names(v, params | loc) if n not in comp]
    h = ast.FunctionDef(name="_extracted_helper", args=ast.arguments(posonlyargs=[], args=[ast.arg("p_" + x) for x in fr], vararg=None, kwonlyargs=[],
                        kw_defaults=[], kwarg=None, defaults=[]), body=[ast.Return(copy.deepcopy(v))], decorator_list=[], returns=None, type_params=[])
    for x in ast.walk(h.body[0]):
        if isinstance(x, ast.Name) and x.id in fr:
            x.id = "p_" + x.id
    mod.body.insert(len([b for b in mod.body if isinstance(b, (ast.Import, ast.ImportFrom)) or (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]), h)
    s.value = ast.Call(ast.Name("_extracted_helper", ast.Load()), [ast.Name(x, ast.Load()) for x in fr], [])
    yield "helper_function"


def keep_helper_tail(fn, cls, mod, rnd):
    """the tail of the body moves into a helper (method when there is self)"""
    if has_nested(fn) or len(fn.body) < 3 or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global)) for x in ast.walk(fn)):
        return
    if any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(fn)):
        return
    st = 1 if _doc(fn) else 0
    k = rnd.randint(st + 1, len(fn.body) - 1)
    tail = fn.body[k:]
    params, loc = locals_of(fn)
    stored_before = {n.id for s in fn.body[:k] for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | params
    fr = [n for n in dict.fromkeys(x.id for s in tail for x in ast.walk(s) if isinstance(x, ast.Name)) if n in stored_before]
    # every one must be certainly bound
    sure = set(params)
    for s in fn.body[:k]:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                sure |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
        if isinstance(s, ast.If) and s.orelse:
            def bound(b):
                out = set()
                for q in b:
                    if isinstance(q, ast.Assign):
                        for t in q.targets:
                            out |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
                return out
            sure |= bound(s.body) & bound(s.orelse)
    if not set(fr) <= sure:
        return
    a = fn.args
    first = a.args[0].arg if cls is not None and a.args and not any(getattr(d, "id", "") == "staticmethod" for d in fn.decorator_list) else None
    ismeth = first is not None
    rest = [x for x in fr if x != first]
    if a.kwarg and a.kwarg.arg in rest or a.vararg and a.vararg.arg in rest:
        pass
    body = copy.deepcopy(tail)
    h = ast.FunctionDef(name="_extracted_tail", args=ast.arguments(posonlyargs=[], args=([ast.arg(first)] if ismeth else []) + [ast.arg(x) for x in rest],
                        vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), body=body,
                        decorator_list=[ast.Name("classmethod", ast.Load())] if ismeth and any(getattr(d, "id", "") == "classmethod" for d in fn.decorator_list) else [],
                        returns=None, type_params=[])
    call = ast.Call(ast.Attribute(ast.Name(first, ast.Load()), "_extracted_tail", ast.Load()) if ismeth else ast.Name("_extracted_tail", ast.Load()),
                    [ast.Name(x, ast.Load()) for x in rest], [])
    fn.body[k:] = [ast.Return(call)]
    if ismeth:
        cls.body.append(h)
    else:
        mod.body.insert(mod.body.index(fn) if fn in mod.body else 0, h)
    yield "helper_tail"


def keep_self_alias(fn, cls, mod, rnd):
    """reads of self.X become reads of a local taken just before the statement"""
    if cls is None or not fn.args.args or has_nested(fn):
        return
    sn = fn.args.args[0].arg
    d = 0
    for n, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            s = b[i]
            v = hoistable(s)
            if v is not None and not any(isinstance(x, (ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.IfExp, ast.BoolOp, ast.Yield)) for x in ast.walk(v)):
                at = [x for x in ast.walk(v) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == sn and isinstance(x.ctx, ast.Load)]
                callees = {id(c.func) for c in ast.walk(v) if isinstance(c, ast.Call)}
                at = [x for x in at if id(x) not in callees]
                names = list(dict.fromkeys(x.attr for x in at))
                if names:
                    pre = []
                    for nm in names:
                        pre.append(ast.Assign([ast.Name("al_" + nm, ast.Store())], ast.Attribute(ast.Name(sn, ast.Load()), nm, ast.Load())))
                    class R(ast.NodeTransformer):
                        def visit_Call(self, c):
                            if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == sn:
                                c.args = [self.visit(x) for x in c.args]
                                for k in c.keywords:
                                    k.value = self.visit(k.value)
                                return c
                            return self.generic_visit(c)
                        def visit_Attribute(self, x):
                            if isinstance(x.value, ast.Name) and x.value.id == sn and x.attr in names and isinstance(x.ctx, ast.Load):
                                return ast.Name("al_" + x.attr, ast.Load())
                            return self.generic_visit(x)
                    s.value = R().visit(v)
                    b[i:i] = pre
                    i += len(pre)
                    d = 1
            i += 1
    if d:
        yield "self_alias"


def keep_commute(fn, cls, mod, rnd):
    d = 0
    for n in ast.walk(fn):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
            n.left, n.right = n.right, n.left
            d = 1
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Eq, ast.NotEq)):
            m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
            n.left, n.comparators, n.ops = n.comparators[0], [n.left], [m[type(n.ops[0])]()]
            d = 1
    if d:
        yield "commute"


def keep_aug(fn, cls, mod, rnd):
    d = 0
    for n, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                t = copy.deepcopy(s.target)
                t.ctx = ast.Load()
                b[i] = ast.Assign([s.target], ast.BinOp(t, s.op, s.value))
                d = 1
    if d:
        yield "aug"


def keep_listcomp_loop(fn, cls, mod, rnd):
    d = 0
    k = 0
    for n, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            s = b[i]
            v = hoistable(s)
            lc = None
            if isinstance(v, ast.ListComp):
                lc = v
            elif isinstance(v, ast.Call) and v.args and isinstance(v.args[0], ast.ListComp):
                lc = v.args[0]
            if lc is not None and len(lc.generators) == 1:
                g = lc.generators[0]
                nm = f"acc_{k}"; k += 1
                app = ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "append", ast.Load()), [lc.elt], []))
                body = [app]
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                pre = [ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
                if lc is v:
                    s.value = ast.Name(nm, ast.Load())
                else:
                    v.args[0] = ast.Name(nm, ast.Load())
                b[i:i] = pre
                i += 2
                d = 1
            i += 1
    if d:
        yield "listcomp_loop"


def keep_for_enumerate(fn, cls, mod, rnd):
    d = 0
    for n in ast.walk(fn):
        if isinstance(n, ast.For) and isinstance(n.iter, (ast.Name, ast.Attribute)) and isinstance(n.target, ast.Name):
            n.iter = ast.Call(ast.Name("enumerate", ast.Load()), [n.iter], [])
            n.target = ast.Tuple([ast.Name("_idx_unused", ast.Store()), n.target], ast.Store())
            d = 1
    if d:
        yield "for_enumerate"


def keep_kw_to_dict(fn, cls, mod, rnd):
    d = 0
    k = 0
    for n, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            s = b[i]
            v = hoistable(s)
            if isinstance(v, ast.Call) and v.keywords and all(x.arg for x in v.keywords):
                nm = f"kwd_{k}"; k += 1
                pre = ast.Assign([ast.Name(nm, ast.Store())], ast.Call(ast.Name("dict", ast.Load()), [], v.keywords))
                v.keywords = [ast.keyword(None, ast.Name(nm, ast.Load()))]
                b.insert(i, pre)
                i += 1
                d = 1
            i += 1
    if d:
        yield "kw_to_dict"


def names_rw(s):
    r, w = set(), set()
    for x in ast.walk(s):
        if isinstance(x, ast.Name):
            (w if isinstance(x.ctx, (ast.Store, ast.Del)) else r).add(x.id)
        if isinstance(x, ast.Attribute):
            (w if isinstance(x.ctx, (ast.Store, ast.Del)) else r).add("." + x.attr)
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
            b = x
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                w.add(b.id)
    return r, w


def keep_reorder(fn, cls, mod, rnd):
    d = 0
    for n, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            def ok(x):
                if not isinstance(x, ast.Assign):
                    return False
                for c in ast.walk(x.value):
                    if isinstance(c, ast.Call):
                        f = c.func
                        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "np":
                            continue
                        if isinstance(f, ast.Name) and f.id in ("len", "dict", "list", "range", "sorted", "min", "max"):
                            continue
                        return False
                return True
            if ok(s) and ok(t):
                (r1, w1), (r2, w2) = names_rw(s), names_rw(t)
                if not (w1 & (r2 | w2)) and not (w2 & r1):
                    b[i], b[i + 1] = t, s
                    d = 1
                    i += 2
                    continue
            i += 1
    if d:
        yield "reorder"


def keep_method_to_np(fn, cls, mod, rnd):
    d = 0
    imported = any(isinstance(s, ast.Import) and any(a.asname == "np" for a in s.names) for s in mod.body)
    if not imported:
        return
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            f = n.func
            isnp = isinstance(f.value, ast.Name) and f.value.id in ("np", "self", "super")
            if f.attr in ("sum", "mean", "max", "min", "cumsum", "argmax", "flatten_", "ravel", "reshape_") and not isnp:
                n.args.insert(0, f.value)
                n.func = ast.Attribute(ast.Name("np", ast.Load()), f.attr, ast.Load())
                d = 1
            elif isnp and f.value.id == "np" and f.attr in ("sum", "mean", "max", "min", "cumsum") and n.args and isinstance(n.args[0], ast.Name) and False:
                d = 1
    if d:
        yield "method_to_np"


def keep_demorgan(fn, cls, mod, rnd):
    d = 0
    class D(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp):
                op = ast.And() if isinstance(n.test.op, ast.Or) else ast.Or()
                n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
                nonlocal d
                d = 1
            return n
    D().visit(fn)
    if d:
        yield "demorgan"


def keep_nest_if(fn, cls, mod, rnd):
    """if a and b: X  ->  if a: if b: X"""
    d = 0
    for n in list(ast.walk(fn)):
        if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            a = n.test.values
            inner = ast.If(a[-1] if len(a) == 2 else ast.BoolOp(ast.And(), a[1:]), n.body, [])
            n.test = a[0]
            n.body = [inner]
            d = 1
    if d:
        yield "nest_if"


def keep_cond_var(fn, cls, mod, rnd):
    d = 0
    for n, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.If) and isinstance(s.test, (ast.Compare, ast.BoolOp, ast.Call)):
                b.insert(i, ast.Assign([ast.Name(f"cond_{d}", ast.Store())], s.test))
                s.test = ast.Name(f"cond_{d}", ast.Load())
                d += 1
                i += 1
            i += 1
    if d:
        yield "cond_var"


def keep_inline_var(fn, cls, mod, rnd):
    """x = e; use(x) once, in the next statement -> use(e)"""
    d = 0
    for n, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            s = b[i]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                nm = s.targets[0].id
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == nm]
                v = hoistable(b[i + 1])
                if len(uses) == 2 and v is not None and sum(1 for x in ast.walk(v) if isinstance(x, ast.Name) and x.id == nm) == 1 and not any(
                        isinstance(x, (ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.Lambda, ast.IfExp, ast.BoolOp)) for x in ast.walk(v)):
                    class R(ast.NodeTransformer):
                        def visit_Name(self, x):
                            return s.value if x.id == nm else x
                    b[i + 1].value = R().visit(v)
                    del b[i]
                    d = 1
                    continue
            i += 1
    if d:
        yield "inline_var"


def keep_loop_comp(fn, cls, mod, rnd):
    """acc = []; for t in it: acc.append(e)  ->  acc = [e for t in it]"""
    d = 0
    for n, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            s, l = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(s.targets[0], ast.Name) and isinstance(l, ast.For) \
                    and len(l.body) == 1 and isinstance(l.body[0], ast.Expr) and isinstance(l.body[0].value, ast.Call) and isinstance(l.body[0].value.func, ast.Attribute) \
                    and l.body[0].value.func.attr == "append" and isinstance(l.body[0].value.func.value, ast.Name) and l.body[0].value.func.value.id == s.targets[0].id:
                s.value = ast.ListComp(l.body[0].value.args[0], [ast.comprehension(l.target, l.iter, [], 0)])
                del b[i + 1]
                d = 1
            i += 1
    if d:
        yield "loop_comp"


def keep_dict_items(fn, cls, mod, rnd):
    """for k, v in d.items() -> for k in d: v = d[k]"""
    d = 0
    for n in list(ast.walk(fn)):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == "items" and \
                isinstance(n.target, ast.Tuple) and isinstance(n.iter.func.value, (ast.Name, ast.Attribute)):
            base = n.iter.func.value
            n.iter = base
            k, v = n.target.elts
            n.target = k
            n.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(base), ast.Name(k.id, ast.Load()), ast.Load())))
            d = 1
    if d:
        yield "dict_items"


def keep_dictcomp_loop(fn, cls, mod, rnd):
    d = 0
    k = 0
    for n, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            s = b[i]
            v = hoistable(s)
            if isinstance(v, ast.DictComp) and len(v.generators) == 1:
                g = v.generators[0]
                nm = f"acc_{k}"; k += 1
                body = [ast.Assign([ast.Subscript(ast.Name(nm, ast.Load()), v.key, ast.Store())], v.value)]
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                b[i:i] = [ast.Assign([ast.Name(nm, ast.Store())], ast.Dict([], [])), ast.For(g.target, g.iter, body, [])]
                s.value = ast.Name(nm, ast.Load())
                i += 2
                d = 1
            i += 1
    if d:
        yield "dictcomp_loop"


def keep_range_loop(fn, cls, mod, rnd):
    """for x in xs: -> for i in range(len(xs)): x = xs[i]"""
    d = 0
    stored_dicts = set()
    for n in list(ast.walk(fn)):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Name) and isinstance(n.target, ast.Name) and not n.orelse and \
                any(isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == n.iter.id and isinstance(x.value, (ast.List, ast.ListComp)) for x in ast.walk(fn)):
            nm = n.iter.id
            t = n.target
            n.target = ast.Name("i_rng", ast.Store())
            n.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [ast.Name(nm, ast.Load())], [])], [])
            n.body.insert(0, ast.Assign([t], ast.Subscript(ast.Name(nm, ast.Load()), ast.Name("i_rng", ast.Load()), ast.Load())))
            d = 1
    if d:
        yield "range_loop"


def keep_try_else(fn, cls, mod, rnd):
    d = 0
    for n in list(ast.walk(fn)):
        if isinstance(n, ast.Try) and not n.orelse and not n.finalbody and len(n.body) > 1 and isinstance(n.body[-1], ast.Return) and isinstance(n.body[-1].value, ast.Name):
            n.orelse = [n.body.pop()]
            d = 1
    if d:
        yield "try_else"


def keep_walrus_const(fn, cls, mod, rnd):
    """a numeric or string literal gets a name in the module"""
    c = [x for s in fn.body for x in ast.walk(s) if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool)]
    if not c or has_nested(fn):
        return
    x = rnd.choice(c)
    class R(ast.NodeTransformer):
        def visit_Constant(self, y):
            return ast.Name("_NAMED_CONSTANT", ast.Load()) if y is x else y
    for i, s in enumerate(fn.body):
        fn.body[i] = R().visit(s)
    mod.body.insert(1 if isinstance(mod.body[0], ast.Expr) else 0, ast.Assign([ast.Name("_NAMED_CONSTANT", ast.Store())], ast.Constant(x.value)))
    yield "named_constant"


# ------------------------------------------------------------------ break
def sites(fn, pred):
    st = 1 if _doc(fn) else 0
    return [x for s in fn.body[st:] for x in ast.walk(s) if pred(x)]


def break_const(fn, cls, mod, rnd):
    inexc = {id(y) for r in ast.walk(fn) if isinstance(r, ast.Raise) for y in ast.walk(r)}
    c = sites(fn, lambda x: isinstance(x, ast.Constant) and isinstance(x.value, (int, float, bool)) and id(x) not in inexc)
    if c:
        x = rnd.choice(c)
        if isinstance(x.value, bool):
            x.value = not x.value
        else:
            x.value = x.value + 1
        yield "const"


def break_cmp(fn, cls, mod, rnd):
    c = sites(fn, lambda x: isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Eq, ast.NotEq, ast.Is, ast.IsNot, ast.In, ast.NotIn)))
    if c:
        x = rnd.choice(c)
        m = {ast.Lt: ast.LtE, ast.Gt: ast.GtE, ast.LtE: ast.Lt, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        x.ops[0] = m[type(x.ops[0])]()
        yield "cmp"


def break_arith(fn, cls, mod, rnd):
    c = sites(fn, lambda x: isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)) and not (isinstance(x.left, ast.Constant) and isinstance(x.left.value, str)))
    if c:
        x = rnd.choice(c)
        m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
        x.op = m[type(x.op)]()
        yield "arith"


def break_swap_args(fn, cls, mod, rnd):
    c = sites(fn, lambda x: isinstance(x, ast.Call) and len(x.args) >= 2 and not any(isinstance(a, ast.Starred) for a in x.args) and ast.dump(x.args[0]) != ast.dump(x.args[1])
              and not (isinstance(x.func, ast.Name) and x.func.id in ("isinstance",)))
    if c:
        x = rnd.choice(c)
        x.args[0], x.args[1] = x.args[1], x.args[0]
        yield "swap_args"


def break_drop_stmt(fn, cls, mod, rnd):
    c = []
    for n, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) or (isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Attribute, ast.Subscript))) or \
                    isinstance(s, ast.AugAssign) or (isinstance(s, ast.If) and not s.orelse):
                c.append((b, i))
    if c:
        b, i = rnd.choice(c)
        what = type(b[i]).__name__
        b[i] = ast.Pass()
        yield "drop_" + what


def break_negate(fn, cls, mod, rnd):
    c = sites(fn, lambda x: isinstance(x, ast.If))
    if c:
        x = rnd.choice(c)
        x.test = ast.UnaryOp(ast.Not(), x.test)
        yield "negate"


def break_attr(fn, cls, mod, rnd):
    c = sites(fn, lambda x: isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load))
    names = sorted({x.attr for x in c})
    if len(names) > 1:
        x = rnd.choice(c)
        x.attr = rnd.choice([n for n in names if n != x.attr])
        yield "attr"


def break_drop_kw(fn, cls, mod, rnd):
    c = sites(fn, lambda x: isinstance(x, ast.Call) and x.keywords)
    if c:
        x = rnd.choice(c)
        del x.keywords[rnd.randrange(len(x.keywords))]
        yield "drop_kw"


def break_var(fn, cls, mod, rnd):
    params, loc = locals_of(fn)
    names = (params | loc) - {"self", "cls"}
    c = sites(fn, lambda x: isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, ast.Load))
    used = sorted({x.id for x in c})
    if len(used) > 1:
        x = rnd.choice(c)
        x.id = rnd.choice([n for n in used if n != x.id])
        yield "var"


def break_unwrap(fn, cls, mod, rnd):
    c = []
    for p in ast.walk(fn):
        for f, v in ast.iter_fields(p):
            if isinstance(v, ast.Call) and len(v.args) >= 1 and not isinstance(v.args[0], ast.Starred) and f != "func" and not isinstance(p, ast.Expr):
                c.append((p, f, v))
    if c:
        p, f, v = rnd.choice(c)
        setattr(p, f, v.args[0])
        yield "unwrap"


def break_index(fn, cls, mod, rnd):
    c = sites(fn, lambda x: isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load))
    if c:
        x = rnd.choice(c)
        s = x.slice
        if isinstance(s, ast.Slice):
            if s.lower is not None:
                s.lower = None
            elif s.upper is not None:
                s.upper = None
            else:
                s.lower = ast.Constant(1)
        elif isinstance(s, ast.Constant) and isinstance(s.value, int):
            s.value += 1
        elif isinstance(s, ast.Constant):
            s.value = str(s.value) + "x"
        elif isinstance(s, ast.Tuple):
            s.elts = s.elts[::-1]
        else:
            x.slice = ast.Constant(0)
        yield "index"


def break_cut_or(fn, cls, mod, rnd):
    c = sites(fn, lambda x: isinstance(x, ast.BoolOp))
    if c:
        x = rnd.choice(c)
        x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
        yield "andor"


KEEP = [v for k, v in list(globals().items()) if k.startswith("keep_")]
BREAK = [v for k, v in list(globals().items()) if k.startswith("break_")]


def generate(src, which, seed=0, reps=1):
    """yield (function name, kind, new source)"""
    base = ast.parse(src)
    names = [(f.name, c.name if c else None) for f, c in funcs(base)]
    for fi, (fname, cname) in enumerate(names):
        for op in which:
            for r in range(reps):
                rnd = random.Random(f"{seed}-{fname}-{cname}-{op.__name__}-{r}")
                tree = copy.deepcopy(base)
                fn, cls = list(funcs(tree))[fi]
                for kind in op(fn, cls, tree, rnd):
                    ast.fix_missing_locations(tree)
                    try:
                        new = ast.unparse(tree)
                        ast.parse(new)
                    except Exception:
                        continue
                    if new != ast.unparse(base):
                        yield (f"{cname}.{fname}" if cname else fname), kind, new
                    break
