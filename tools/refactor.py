"""Development aid: do the checks stay quiet on rewrites that keep the
behaviour?  Derives refactorings of every function of the package as syntax
trees, judges each with the definitions that reach the function, and lists the
ones that are reported or not decided.  Nothing is executed.

    python3 tools/refactor.py OUT.txt [module or function substring ...] [--kind k,k]
"""
import ast
import copy
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from mutate import TreeIndex, trees, base_functions, run_base, rulekeys, _S
from sa.index import Index
from sa.contracts import SpecSet, Checker
from sa import rules

SIMPLE = (ast.Assign, ast.Return, ast.Expr, ast.AugAssign, ast.AnnAssign)


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def locals_of(fn):
    out = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
    return out


def params_of(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def blocks(fn):
    """every statement list of the function"""
    out = []

    def rec(n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append(b)
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        rec(s)
        for h in getattr(n, "handlers", []):
            rec(h)
    rec(fn)
    return out


def doc(b, i):
    return i == 0 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant)


def parse(src):
    return ast.parse(src).body


def ends(b):
    return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def has(n, *kinds):
    return any(isinstance(x, kinds) for x in ast.walk(n))


def pureish(e):
    return not has(e, ast.Call, ast.Await, ast.Yield, ast.NamedExpr, ast.Subscript, ast.BinOp)


# each transformation yields (label, apply) where apply(fn, holder, module) edits in place
def t_rename(fn, q):
    nested = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(fn) if x is not fn)
    if nested or has(fn, ast.Global, ast.Nonlocal):
        return
    loc = locals_of(fn) - set(params_of(fn))
    if not loc:
        return

    def go(fn, holder, mod):
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + "_new"
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name += "_new"
    yield "all", go


def each_stmt(fn):
    for bi, b in enumerate(blocks(fn)):
        for i, s in enumerate(b):
            if not doc(b, i):
                yield bi, i, b, s


def at(fn, bi):
    return blocks(fn)[bi]


def t_retvar(fn, q):
    for bi, i, b, s in each_stmt(fn):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            def go(fn, holder, mod, bi=bi, i=i):
                b = at(fn, bi)
                b[i:i + 1] = [ast.Assign([ast.Name("result_x", ast.Store())], b[i].value), ast.Return(ast.Name("result_x", ast.Load()))]
            yield f"{s.lineno}", go


def t_hoist(fn, q):
    """arguments of the outermost call of a simple statement into variables"""
    for bi, i, b, s in each_stmt(fn):
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s.value, ast.Call):
            c = s.value
            if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
                continue
            if isinstance(s, ast.Expr) and ast.unparse(c.func).startswith("logger"):
                continue
            f = c.func
            while isinstance(f, ast.Attribute):
                f = f.value
            if not isinstance(f, ast.Name) or isinstance(f, ast.Name) and f.id == "super":
                continue
            if not any(not isinstance(a, (ast.Name, ast.Constant)) for a in c.args + [k.value for k in c.keywords]):
                continue

            def go(fn, holder, mod, bi=bi, i=i):
                b = at(fn, bi)
                c = b[i].value
                new = []
                for j, a in enumerate(c.args):
                    if not isinstance(a, (ast.Name, ast.Constant)):
                        new.append(ast.Assign([ast.Name(f"arg_{j}", ast.Store())], a))
                        c.args[j] = ast.Name(f"arg_{j}", ast.Load())
                for k in c.keywords:
                    if not isinstance(k.value, (ast.Name, ast.Constant)):
                        new.append(ast.Assign([ast.Name(f"kw_{k.arg}", ast.Store())], k.value))
                        k.value = ast.Name(f"kw_{k.arg}", ast.Load())
                b[i:i] = new
            yield f"{s.lineno}", go


def t_receiver(fn, q):
    """a.b().c() -> t = a.b(); t.c()"""
    for bi, i, b, s in each_stmt(fn):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                and not isinstance(s.value.func.value, (ast.Name, ast.Attribute)) and ast.unparse(s.value.func.value) != "super()":
            def go(fn, holder, mod, bi=bi, i=i):
                b = at(fn, bi)
                f = b[i].value.func
                b[i:i] = [ast.Assign([ast.Name("recv_x", ast.Store())], f.value)]
                f.value = ast.Name("recv_x", ast.Load())
            yield f"{s.lineno}", go


def t_inline(fn, q):
    for bi, i, b, s in each_stmt(fn):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)) or i + 1 >= len(b):
            continue
        v = s.targets[0].id
        nx = b[i + 1]
        if not isinstance(nx, SIMPLE + (ast.If,)):
            continue
        scope = nx.test if isinstance(nx, ast.If) else nx
        uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == v]
        here = [x for x in ast.walk(scope) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load)]
        if len(uses) != 2 or len(here) != 1:
            continue
        if has(scope, ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.BoolOp, ast.IfExp):
            continue
        if ast.unparse(nx).startswith("logger"):
            continue

        def go(fn, holder, mod, bi=bi, i=i, v=v):
            b = at(fn, bi)
            val = b[i].value

            class R(ast.NodeTransformer):
                def visit_Name(self, n):
                    return copy.deepcopy(val) if n.id == v and isinstance(n.ctx, ast.Load) else n
            if isinstance(b[i + 1], ast.If):
                b[i + 1].test = R().visit(b[i + 1].test)
            else:
                b[i + 1] = R().visit(b[i + 1])
            del b[i]
        yield f"{s.lineno} {v}", go


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
        if type(e.ops[0]) in m:
            return ast.Compare(e.left, [m[type(e.ops[0])]()], e.comparators)
    return ast.UnaryOp(ast.Not(), e)


def t_invert(fn, q):
    for bi, i, b, s in each_stmt(fn):
        if isinstance(s, ast.If) and s.orelse:
            def go(fn, holder, mod, bi=bi, i=i):
                s = at(fn, bi)[i]
                s.test, s.body, s.orelse = neg(s.test), s.orelse, s.body
            yield f"{s.lineno} else", go
        if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b):
            def go(fn, holder, mod, bi=bi, i=i):
                b = at(fn, bi)
                s = b[i]
                s.orelse = b[i + 1:]
                del b[i + 1:]
            yield f"{s.lineno} rest to else", go

            def go(fn, holder, mod, bi=bi, i=i):
                b = at(fn, bi)
                s = b[i]
                s.test, s.body, s.orelse = neg(s.test), b[i + 1:], s.body
                del b[i + 1:]
            yield f"{s.lineno} rest first", go
        if isinstance(s, ast.If) and s.orelse and ends(s.body):
            def go(fn, holder, mod, bi=bi, i=i):
                b = at(fn, bi)
                s = b[i]
                o, s.orelse = s.orelse, []
                b[i + 1:i + 1] = o
            yield f"{s.lineno} else to rest", go
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            def go(fn, holder, mod, bi=bi, i=i):
                s = at(fn, bi)[i]
                v = s.test.values
                s.body = [ast.If(v[-1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:]), s.body, [])]
                s.test = v[0]
            yield f"{s.lineno} nest and", go
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or):
            def go(fn, holder, mod, bi=bi, i=i):
                s = at(fn, bi)[i]
                s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.And(), [neg(x) for x in s.test.values]))
            yield f"{s.lineno} de morgan", go
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and ends(s.body):
            def go(fn, holder, mod, bi=bi, i=i):
                b = at(fn, bi)
                s = b[i]
                b[i:i + 1] = [ast.If(x, copy.deepcopy(s.body), []) for x in s.test.values]
            yield f"{s.lineno} split or", go


def t_ternary(fn, q):
    for bi, i, b, s in each_stmt(fn):
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and type(s.body[0]) is type(s.orelse[0]) and isinstance(s.body[0], (ast.Assign, ast.Return)):
            x, y = s.body[0], s.orelse[0]
            if isinstance(x, ast.Assign) and ast.dump(x.targets[0]) != ast.dump(y.targets[0]):
                continue

            def go(fn, holder, mod, bi=bi, i=i):
                b = at(fn, bi)
                s = b[i]
                x, y = s.body[0], s.orelse[0]
                x.value = ast.IfExp(s.test, x.value, y.value)
                b[i] = x
            yield f"{s.lineno} to ternary", go
        if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value is not None and i + 2 == len(b) and isinstance(b[i + 1], ast.Return) and b[i + 1].value is not None:
            def go(fn, holder, mod, bi=bi, i=i):
                b = at(fn, bi)
                s = b[i]
                b[i:] = [ast.Return(ast.IfExp(s.test, s.body[0].value, b[i + 1].value))]
            yield f"{s.lineno} to ternary return", go
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
            def go(fn, holder, mod, bi=bi, i=i):
                b = at(fn, bi)
                s = b[i]
                e = s.value
                x, y = s, copy.deepcopy(s)
                x.value, y.value = e.body, e.orelse
                b[i] = ast.If(e.test, [x], [y])
            yield f"{s.lineno} from ternary", go


def t_comp(fn, q):
    for bi, i, b, s in each_stmt(fn):
        # xs = []; for ...: xs.append(e)
        if i + 1 < len(b) and isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(b[i + 1], ast.For) and not b[i + 1].orelse:
            v, f = s.targets[0].id, b[i + 1]
            body = [x for x in f.body if not ast.unparse(x).startswith("logger")]
            if len(body) == 1 and isinstance(s.value, (ast.List, ast.Dict)) and not ast.unparse(s.value).strip("[]{}"):
                x = body[0]
                cond = None
                if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1:
                    cond, x = x.test, x.body[0]
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and ast.unparse(x.value.func) == v + ".append" and v not in names(x.value.args[0]):
                    def go(fn, holder, mod, bi=bi, i=i):
                        b = at(fn, bi)
                        f = b[i + 1]
                        x = [y for y in f.body if not ast.unparse(y).startswith("logger")][0]
                        ifs = []
                        if isinstance(x, ast.If):
                            ifs, x = [x.test], x.body[0]
                        b[i].value = ast.ListComp(x.value.args[0], [ast.comprehension(f.target, f.iter, ifs, 0)])
                        del b[i + 1]
                    yield f"{s.lineno} to list comp", go
                if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript) and ast.unparse(x.targets[0].value) == v and v not in names(x.value):
                    def go(fn, holder, mod, bi=bi, i=i):
                        b = at(fn, bi)
                        f = b[i + 1]
                        x = [y for y in f.body if not ast.unparse(y).startswith("logger")][0]
                        ifs = []
                        if isinstance(x, ast.If):
                            ifs, x = [x.test], x.body[0]
                        b[i].value = ast.DictComp(x.targets[0].slice, x.value, [ast.comprehension(f.target, f.iter, ifs, 0)])
                        del b[i + 1]
                    yield f"{s.lineno} to dict comp", go
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp)) and len(s.value.generators) == 1 and (isinstance(s, ast.Return) or isinstance(s.targets[0], ast.Name)):
            if isinstance(s, ast.Assign) and s.targets[0].id in names(s.value):
                continue

            def go(fn, holder, mod, bi=bi, i=i):
                b = at(fn, bi)
                s = b[i]
                c = s.value
                g = c.generators[0]
                v = s.targets[0].id if isinstance(s, ast.Assign) else "built_x"
                if isinstance(c, ast.ListComp):
                    init, step = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), "append", ast.Load()), [c.elt], []))
                else:
                    init, step = ast.Dict([], []), ast.Assign([ast.Subscript(ast.Name(v, ast.Load()), c.key, ast.Store())], c.value)
                for t in g.ifs:
                    step = ast.If(t, [step], [])
                new = [ast.Assign([ast.Name(v, ast.Store())], init), ast.For(g.target, g.iter, [step], [])]
                if isinstance(s, ast.Return):
                    new.append(ast.Return(ast.Name(v, ast.Load())))
                b[i:i + 1] = new
            yield f"{s.lineno} from comp", go


def t_loop(fn, q):
    for bi, i, b, s in each_stmt(fn):
        if not isinstance(s, ast.For) or s.orelse:
            continue
        it = s.iter
        if isinstance(it, ast.Call) and ast.unparse(it.func) == "enumerate" and len(it.args) == 1 and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and pureish(it.args[0]):
            def go(fn, holder, mod, bi=bi, i=i):
                s = at(fn, bi)[i]
                xs = s.iter.args[0]
                k, x = s.target.elts
                s.target = k
                s.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [xs], [])], [])
                s.body.insert(0, ast.Assign([x], ast.Subscript(copy.deepcopy(xs), ast.Name(k.id, ast.Load()), ast.Load())))
            yield f"{s.lineno} enumerate to range", go
        if isinstance(it, ast.Call) and ast.unparse(it.func) == "range" and len(it.args) <= 2 and isinstance(s.target, ast.Name) and not has(s, ast.Continue, ast.Break):
            v = s.target.id
            inside = {id(x) for x in ast.walk(s)}
            if any(isinstance(x, ast.Name) and x.id == v and id(x) not in inside for x in ast.walk(fn)):
                continue

            def go(fn, holder, mod, bi=bi, i=i, v=v):
                b = at(fn, bi)
                s = b[i]
                lo, hi = (ast.Constant(0), s.iter.args[0]) if len(s.iter.args) == 1 else s.iter.args
                step = parse(f"{v} += 1")[0]
                b[i:i + 1] = [ast.Assign([ast.Name(v, ast.Store())], lo), ast.Assign([ast.Name("stop_x", ast.Store())], hi),
                              ast.While(ast.Compare(ast.Name(v, ast.Load()), [ast.Lt()], [ast.Name("stop_x", ast.Load())]), s.body + [step], [])]
            yield f"{s.lineno} range to while", go
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and not it.args and isinstance(s.target, ast.Tuple) and pureish(it.func.value):
            def go(fn, holder, mod, bi=bi, i=i):
                s = at(fn, bi)[i]
                d = s.iter.func.value
                k, x = s.target.elts
                s.target, s.iter = k, d
                s.body.insert(0, ast.Assign([x], ast.Subscript(copy.deepcopy(d), ast.Name(k.id, ast.Load()), ast.Load())))
            if isinstance(s.target.elts[0], ast.Name):
                yield f"{s.lineno} items to keys", go
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "values" and not it.args and pureish(it.func.value):
            def go(fn, holder, mod, bi=bi, i=i):
                s = at(fn, bi)[i]
                s.iter.func.attr = "items"
                s.target = ast.Tuple([ast.Name("_key_x", ast.Store()), s.target], ast.Store())
            yield f"{s.lineno} values to items", go
        # guard: if c: continue; rest  ->  if not c: rest
        for j, x in enumerate(s.body):
            if isinstance(x, ast.If) and not x.orelse and isinstance(x.body[-1], ast.Continue) and j + 1 < len(s.body):
                def go(fn, holder, mod, bi=bi, i=i, j=j):
                    s = at(fn, bi)[i]
                    x = s.body[j]
                    x.test, x.body, x.orelse = neg(x.test), s.body[j + 1:], x.body[:-1]
                    del s.body[j + 1:]
                yield f"{x.lineno} continue to if", go


def t_order(fn, q):
    for bi, i, b, s in each_stmt(fn):
        if i + 1 >= len(b):
            continue
        t = b[i + 1]
        if not (isinstance(s, ast.Assign) and isinstance(t, ast.Assign)):
            continue
        ws, wt = names(s, ast.Store), names(t, ast.Store)
        if not (isinstance(s.targets[0], ast.Name) and isinstance(t.targets[0], ast.Name)):
            continue
        if ws & (wt | names(t, ast.Load)) or wt & names(s, ast.Load):
            continue
        if has(s.value, ast.Call) and has(t.value, ast.Call):
            continue

        def go(fn, holder, mod, bi=bi, i=i):
            b = at(fn, bi)
            b[i], b[i + 1] = b[i + 1], b[i]
        yield f"{s.lineno}", go


def t_flip(fn, q):
    n = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)):
            n += 1
    if n:
        def go(fn, holder, mod):
            for x in ast.walk(fn):
                if isinstance(x, ast.Compare) and len(x.ops) == 1:
                    m = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}.get(type(x.ops[0]))
                    if m:
                        x.left, x.comparators, x.ops = x.comparators[0], [x.left], [m()]
        yield "swap sides", go

        def go(fn, holder, mod):
            class R(ast.NodeTransformer):
                def visit_Compare(self, x):
                    self.generic_visit(x)
                    m = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}.get(type(x.ops[0]))
                    if len(x.ops) == 1 and m:
                        return ast.UnaryOp(ast.Not(), ast.Compare(x.left, [m()], x.comparators))
                    return x
            R().visit(fn)
        if not any(isinstance(x, ast.Compare) and (has(x, ast.Subscript) or len(x.ops) > 1) for x in ast.walk(fn)):
            yield "negate", go


def t_aug(fn, q):
    for bi, i, b, s in each_stmt(fn):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            def go(fn, holder, mod, bi=bi, i=i):
                b = at(fn, bi)
                s = b[i]
                b[i] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
            yield f"{s.lineno}", go


def t_unpack(fn, q):
    for bi, i, b, s in each_stmt(fn):
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call):
            def go(fn, holder, mod, bi=bi, i=i):
                b = at(fn, bi)
                s = b[i]
                new = [ast.Assign([ast.Name("pair_x", ast.Store())], s.value)]
                for j, t in enumerate(s.targets[0].elts):
                    new.append(ast.Assign([t], ast.Subscript(ast.Name("pair_x", ast.Load()), ast.Constant(j), ast.Load())))
                b[i:i + 1] = new
            yield f"{s.lineno}", go


def t_noop(fn, q):
    bl = blocks(fn)
    for k, src in enumerate(["pass", "_unused_x = None", "None", "assert True", "_unused_x = 1 + 1", "logger.debug('x')", "if False:\n    pass"]):
        if k not in (0, 1) and len(bl) > 3 and k % 3:
            continue

        def go(fn, holder, mod, src=src):
            for b in blocks(fn):
                at_ = 1 if doc(b, 0) else 0
                b.insert(at_, parse(src)[0])
        yield src.split("\n")[0], go


def t_kwswap(fn, q):
    if any(isinstance(x, ast.Call) and len(x.keywords) > 1 and all(k.arg for k in x.keywords) for x in ast.walk(fn)):
        def go(fn, holder, mod):
            for x in ast.walk(fn):
                if isinstance(x, ast.Call) and all(k.arg for k in x.keywords):
                    x.keywords.reverse()
        yield "all", go


def t_extract(fn, q):
    """a run of statements into a helper"""
    imports = [s for s in ast.walk(fn) if isinstance(s, (ast.Import, ast.ImportFrom))]
    impnames = {(a.asname or a.name).split(".")[0] for s in imports for a in s.names}
    P = set(params_of(fn))
    L = locals_of(fn)
    if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(fn) if x is not fn):
        return
    for bi, b in enumerate(blocks(fn)):
        n = len(b)
        start = 1 if doc(b, 0) else 0
        spans = {(start, n)} | {(i, i + 1) for i in range(start, n)} | {(i, i + 2) for i in range(start, n - 1)} | {(start, start + (n - start) // 2), (start + (n - start) // 2, n)}
        for lo, hi in sorted(spans):
            run = b[lo:hi]
            if not run or hi <= lo or all(isinstance(s, (ast.Import, ast.ImportFrom, ast.Pass)) for s in run) or any(ast.unparse(s).startswith("logger") for s in run) and len(run) == 1:
                continue
            wr = ast.Module(run, [])
            if has(wr, ast.Yield, ast.YieldFrom, ast.Import, ast.ImportFrom) or "super()" in ast.unparse(wr):
                continue
            whole = hi == n and bi == 0
            bad = False
            for s in run:
                for x in ast.walk(s):
                    if isinstance(x, ast.Return) and not whole:
                        bad = True
                    if isinstance(x, (ast.Break, ast.Continue)):
                        # must be inside a loop that is part of the run
                        bad = bad or not any(isinstance(y, (ast.For, ast.While)) and any(z is x for z in ast.walk(y)) for y in ast.walk(wr))
            if bad:
                continue
            if whole and not ends(run):
                continue
            inrun = {id(x) for x in ast.walk(wr)}
            stored = names(wr, ast.Store)
            # names bound before the run and read in it
            reads = [v for v in sorted(names(wr, ast.Load)) if v in P | L]
            comp = {y.id for x in ast.walk(wr) if isinstance(x, ast.comprehension) for y in ast.walk(x.target) if isinstance(y, ast.Name)}
            elsewhere = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and id(x) not in inrun}
            first = min(x.lineno for x in ast.walk(wr) if hasattr(x, "lineno"))
            before = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in inrun and x.lineno < first} | P
            inloop = bi > 0
            ins = [v for v in reads if v in before or (inloop and v in elsewhere and v not in comp and v not in stored)]
            outs = [v for v in sorted(stored - comp) if v in elsewhere]
            if inloop and any(v in stored and v not in before for v in ins):
                continue
            # a name maybe unbound when the helper ends
            if not whole and any(v not in ins and not any(isinstance(s, ast.Assign) and v in names(s, ast.Store) for s in run) for v in outs):
                continue
            if any(v in (L - before - stored) and v not in comp and v not in ins for v in reads):
                continue

            def go(fn, holder, mod, bi=bi, lo=lo, hi=hi, ins=ins, outs=outs, whole=whole):
                b = at(fn, bi)
                run = b[lo:hi]
                imp = [copy.deepcopy(s) for s in ast.walk(fn) if isinstance(s, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name).split(".")[0] in names(ast.Module(run, [])) for a in s.names)]
                slf = "self" in ins
                args = ["self"] + [v for v in ins if v != "self"] if slf else ins
                h = parse(f"def _helper_x({', '.join(args)}):\n    pass")[0]
                h.body = imp + run
                call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), "_helper_x", ast.Load()) if slf else ast.Name("_helper_x", ast.Load()),
                                [ast.Name(v, ast.Load()) for v in args if v != "self"], [])
                if whole:
                    b[lo:hi] = [ast.Return(call)]
                elif not outs:
                    b[lo:hi] = [ast.Expr(call)]
                else:
                    tgt = [ast.Name(v, ast.Store()) for v in outs]
                    val = [ast.Name(v, ast.Load()) for v in outs]
                    h.body.append(ast.Return(val[0] if len(val) == 1 else ast.Tuple(val, ast.Load())))
                    b[lo:hi] = [ast.Assign([tgt[0] if len(tgt) == 1 else ast.Tuple(tgt, ast.Store())], call)]
                if slf:
                    holder.body.append(h)
                else:
                    mod.body.append(h)
            yield f"{run[0].lineno}-{run[-1].lineno}", go


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("t_")}


def job(a):
    qual, kind, k, cands = a
    T = _S.setdefault("trees", trees())
    mod = next(m for m in sorted(T, key=len, reverse=True) if qual.startswith(m + "."))
    rel, tree = T[mod]
    nm = qual[len(mod) + 1:].split(".")
    t2 = copy.deepcopy(tree)

    def find(body, n):
        return next(x for x in body if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == n)
    holder = t2
    for n in nm[:-1]:
        holder = find(holder.body, n)
    fn = find(holder.body, nm[-1])
    label, go = list(KINDS[kind](fn, qual))[k]
    go(fn, holder, t2)
    ast.fix_missing_locations(t2)
    try:
        t2 = ast.parse(ast.unparse(t2))
    except SyntaxError as e:
        return qual, kind, label, "BADTREE", str(e), 0
    T2 = dict(T)
    T2[mod] = (rel, t2)
    und, t0 = [], time.time()
    viol = []
    for c in cands:
        ix = TreeIndex(T2)
        ss = SpecSet(ix, os.path.join(HERE, "spec"))
        ct = ss.contracts[c]
        try:
            r = Checker(ix, ss).check(ct)
        except Exception as e:
            und.append(f"{ct.id} CRASH {type(e).__name__} {e}")
            continue
        if r.status == "violation":
            viol.append(ct.prop + " " + ct.id)
        elif r.status != "holds":
            und.append(f"{ct.id} {r.detail}"[:200])
    ix = TreeIndex(T2)
    rules.ONLY = mod
    base = _S.get("rules" + mod)
    if base is None:
        b = TreeIndex(T)
        base = _S["rules" + mod] = rulekeys(b)
    for x in rulekeys(ix) - base:
        viol.append("rule " + " ".join(x))
    return qual, kind, label, "ALARM" if viol else "undecided" if und else "quiet", "; ".join(viol[:3] or und[:2]), time.time() - t0


def main():
    out = sys.argv[1]
    kinds = list(KINDS)
    pats = sys.argv[2:]
    if "--kind" in pats:
        i = pats.index("--kind")
        kinds = pats[i + 1].split(",")
        del pats[i:i + 2]
    n = base_functions()
    with mp.Pool(8) as pool:
        base = pool.map(run_base, n, chunksize=4)
    reach = {}
    for i, st, fns, t in sorted(base, key=lambda x: x[3]):
        for f in fns:
            reach.setdefault(f, []).append(i)
    ix = Index("/repo")
    ss = SpecSet(ix, os.path.join(HERE, "spec"))
    jobs = []
    for q, f in sorted(ix.funcs.items()):
        if not rules.in_scope(f) or "<" in q or q.startswith("spec.") or q.startswith("resistics.errors"):
            continue
        if pats and not any(p in q for p in pats):
            continue
        cands, ids = [], set()
        for i in reach.get(q, []):
            if ss.contracts[i].id not in ids:
                ids.add(ss.contracts[i].id)
                cands.append(i)
        for kd in kinds:
            for k, _ in enumerate(KINDS[kd](f.node, q)):
                jobs.append((q, kd, k, cands))
    print(len(jobs), "refactorings", flush=True)
    t = time.time()
    cnt = {}
    with open(out, "w") as fo, mp.Pool(8) as pool:
        for r in pool.imap_unordered(job, jobs, chunksize=2):
            cnt[r[3]] = cnt.get(r[3], 0) + 1
            if r[3] != "quiet":
                fo.write("\t".join(str(x).replace("\n", " ") for x in r) + "\n")
                fo.flush()
    print(cnt, round(time.time() - t), "s")


if __name__ == "__main__":
    main()
