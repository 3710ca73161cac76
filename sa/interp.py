"""Gated value-graph construction.

Every function is translated, without being run, into value-flow terms:
branches become gated (phi) values, loops become binder terms over an abstract
iteration, calls into the package are inlined (or kept opaque at contract
boundaries), and every store that can reach caller-visible objects, every raise
and every effectful call is recorded with the path condition that gates it.
"""
import ast
import builtins
import copy as _copy

from .ir import N, Node, const, TRUE, FALSE, NONE, subst, contains, walk, kids, mapargs
from .index import Index, Func, ClassInfo, Module, AnalysisError, dotted, import_map

MUTATORS = {
    "append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update",
    "setdefault", "popitem", "add", "discard", "fill", "itemset", "put", "resize", "partition",
    "itemset", "setfield", "setflags", "byteswap_inplace", "drop_inplace",
}
# external callables whose result is a view of (may alias) their first argument
VIEW_FUNCS = {
    "numpy.squeeze", "numpy.asarray", "numpy.asanyarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.swapaxes",
    "numpy.transpose", "numpy.reshape", "numpy.ravel", "numpy.real", "numpy.imag", "numpy.expand_dims",
    "numpy.lib.stride_tricks.sliding_window_view", "numpy.lib.stride_tricks.as_strided", "numpy.broadcast_to",
    "numpy.moveaxis", "numpy.rollaxis", "numpy.flip", "numpy.ascontiguousarray", "numpy.diagonal", "numpy.split",
    "numpy.array_split", "numpy.nditer", "numpy.require",
}
# results that hold, respectively are, elements of an argument
PASS_ON = {"builtins.reversed", "builtins.filter", "builtins.iter", "builtins.zip", "builtins.enumerate", "itertools.chain", "itertools.islice",
           "itertools.cycle", "collections.deque", "builtins.frozenset"}
PICK = {"builtins.next", "builtins.max", "builtins.min"}
VIEW_METHODS = {"squeeze", "reshape", "ravel", "transpose", "swapaxes", "view", "diagonal", "items", "values", "keys",
                "__iter__", "get"}
VIEW_ATTRS_FRESH_FALSE = {"T", "real", "imag", "values", "flat", "loc", "iloc", "at", "iat"}
# external callables that overwrite an argument
INPLACE_FUNCS = {
    "numpy.copyto": (0,), "numpy.put": (0,), "numpy.place": (0,), "numpy.putmask": (0,), "numpy.fill_diagonal": (0,),
    "numpy.random.shuffle": (0,), "numpy.put_along_axis": (0,),
}
INPLACE_KW = {"overwrite_data": 0, "overwrite_x": 0, "overwrite_a": 0, "inplace": "recv", "out": "kw", "output": "kw"}
FRESH_FUNCS = {
    "numpy.empty", "numpy.zeros", "numpy.ones", "numpy.array", "numpy.full", "numpy.ndarray", "numpy.empty_like",
    "numpy.zeros_like", "numpy.ones_like", "numpy.arange", "numpy.copy", "pandas.DataFrame", "pandas.Series",
    "builtins.list", "builtins.dict", "builtins.set", "numpy.full_like",
}
SILENT = ("loguru.logger", "builtins.print", "warnings.warn")
EFFECT_FUNCS_PURE_PREFIX = ("numpy.", "scipy.", "pandas.", "math.", "builtins.", "datetime.", "fractions.", "typing.")
EFFECT_FUNCS = {"numpy.save", "numpy.savez", "numpy.savez_compressed", "numpy.savetxt", "builtins.open", "shutil.rmtree",
                "os.remove", "os.unlink", "os.makedirs", "os.mkdir", "os.rename", "os.replace", "shutil.copy", "shutil.move",
                "shutil.copytree", "builtins.exec", "builtins.eval", "builtins.setattr", "builtins.delattr"}
EFFECT_METHODS = {"mkdir", "write", "writelines", "unlink", "rmdir", "rename", "replace_file", "touch", "write_text",
                  "write_bytes", "tofile", "to_csv", "to_json", "to_pickle", "dump"}


class State(object):
    __slots__ = ("env", "hf", "hc", "pc")

    def __init__(self):
        self.env = {}
        self.hf = {}
        self.hc = {}
        self.pc = []

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.hf = dict(self.hf)
        s.hc = dict(self.hc)
        s.pc = list(self.pc)
        return s


class Frame(object):
    def __init__(self, func, module, selfnode, cls):
        self.func = func
        self.module = module
        self.selfnode = selfnode
        self.cls = cls
        self.outcomes = []   # (pc list, kind 'ret'|'raise', value, state)
        self.loops = []
        self.tries = []


class LoopCtx(object):
    def __init__(self):
        self.breaks = []
        self.conts = []


class Mut(object):
    def __init__(self, base, roots, kind, file, line, func, pc, stack):
        self.base, self.roots, self.kind, self.file, self.line, self.func = base, roots, kind, file, line, func
        self.pc = pc
        self.stack = stack


class Event(object):
    def __init__(self, node, pc, file, line, func):
        self.node, self.pc, self.file, self.line, self.func = node, pc, file, line, func


class Summary(object):
    pass


def conj(conds):
    conds = [c for c in conds if c is not TRUE]
    if not conds:
        return TRUE
    r = conds[0]
    for c in conds[1:]:
        r = N("and", r, c)
    return r


def neg(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    return N("not", c)


def disj(conds):
    if any(c is TRUE for c in conds):
        return TRUE
    conds = [c for c in conds if c is not FALSE]
    if not conds:
        return FALSE
    r = conds[0]
    for c in conds[1:]:
        r = N("or", r, c)
    return r


def phi(c, a, b):
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    for w, u, t in ((a, b, c), (b, a, neg(c))):       # a loop that is left out when it makes no rounds
        if w.op == "lout" and w.args[0] is u and t.op == "truth" and w.args[2].args[0] is const("n") and w.args[4].op == "cv":
            n = w.args[2].args[1]
            if n is t.args[0] or n.op == "call" and n.args[0].op == "glob" and n.args[0].args[0] == "builtins.len" and n.args[1] == (t.args[0],):
                return w
    return N("phi", c, a, b)


class Interp(object):
    def __init__(self, index, opaque=None, max_depth=14):
        self.ix = index
        self.opaque = opaque or (lambda f: False)
        self.max_depth = max_depth
        self.virtual = set()
        self.types = {}
        self.objs = {}
        self.nobj = 0
        self.nlid = 0
        self.loopinfo = {}
        self.lines = {}
        self.modconst = {}
        self.closures = {}
        self.lamstate = {}
        self.lamstack = []
        self.reset()

    def reset(self):
        self.muts = []
        self.events = []
        self.stack = []
        self.calls = []      # (qual or dotted, line, file, func)
        self.notes = []
        self.throwlog = None

    # ------------------------------------------------------------------ types
    def typeof(self, n, depth=0):
        t = self.types.get(n)
        if t is not None and (n.op != "flatmap" or t != ("list", None)) or depth > 30:
            return t
        t = self._typeof(n, depth)
        if t is not None:
            self.types[n] = t
        return t

    def _typeof(self, n, depth):
        o, a = n.op, n.args
        if o == "const":
            return ("prim", type(a[0]).__name__) if a[0] is not None else ("none",)
        if o == "attr":
            if a[0].op == "cls":
                c = self.ix.classes.get(a[0].args[0])
                f = c.field(a[1]) if c is not None else None
                return self.ix.type_of_ann(f[0], f[2].module) if f is not None and f[0] is not None else None
            bt = self.typeof(a[0], depth + 1)
            c = self.cls_of(bt)
            if c is not None:
                return self.ix.attr_type(c, a[1])
            return None
        if o == "idx":
            bt = self.typeof(a[0], depth + 1)
            if bt:
                if bt[0] == "dict":
                    return bt[2]
                if bt[0] == "list":
                    return bt[1] if a[1].op != "slice" else bt
                if bt[0] == "tuple":
                    if a[1].op == "const" and isinstance(a[1].args[0], int) and len(bt[1]) > a[1].args[0] >= 0:
                        return bt[1][a[1].args[0]]
                    return None
                if bt == ("set",):
                    return self.members_type(a[0], depth + 1)
                if bt == ("ndarray",):
                    return ("ndarray",) if contains(a[1], lambda x: x.op == "slice" or (x.op == "const" and x.args[0] is Ellipsis)) else None
                c = self.cls_of(bt)
                if c is not None:
                    m = c.find("__getitem__")
                    if m is not None:
                        return self.ix.type_of_ann(m.node.returns, m.module)
                if bt[0] == "ext" and "DataFrame" in bt[1] and a[1].op in ("list", "cmp", "flatmap", "idx", "obj"):
                    return bt
            return None
        if o == "phi":
            return self.typeof(a[1], depth + 1) or self.typeof(a[2], depth + 1)
        if o == "obj":
            info = self.objs[n]
            if isinstance(info[0], ClassInfo):
                return ("cls", info[0].qual)
            if info[0] == "set":
                return ("set",)
            if info[0] == "list":
                return ("list", self.members_type(info[1], depth + 1) if depth < 20 and isinstance(info[1], Node) and info[1].op in ("call", "flatmap") else None)
            if info[0] == "dict":
                return ("dict", None, None)
            return self.typeof(info[1], depth + 1)
        if o == "flatmap":
            y = a[4 if len(a) > 5 else 3]
            while y.op == "phi":
                y = y.args[2] if y.args[1].op == "list" and not y.args[1].args else y.args[1]
            if y.op == "list" and len(y.args) == 1 and y.args[0].op != "star":
                return ("list", self.typeof(y.args[0], depth + 1))
            return ("list", None)
        if o == "list":
            return ("list", None)
        if o in SETS:
            return ("set",)
        if o in ("dict", "dflat", "dupd", "dictof"):
            return ("dict", None, None)
        if o in ("cat", "fmt"):
            return ("prim", "str")
        if o == "path":
            return ("ext", "pathlib.Path")
        if o == "new":
            return ("cls", a[0])
        if o == "dc":
            return self.typeof(a[0], depth + 1)
        if o == "mcopy":
            return self.typeof(a[0], depth + 1)
        if o == "call":
            f = a[0]
            if f.op in ("func", "vfunc"):
                fi = self.ix.funcs.get(f.args[0])
                if fi is not None:
                    return self.ix.type_of_ann(fi.node.returns, fi.module)
            if f.op == "glob":
                d = f.args[0]
                if d == "builtins.len" or d == "builtins.int":
                    return ("prim", "int")
                if d == "builtins.float":
                    return ("prim", "float")
                if d == "builtins.str":
                    return ("prim", "str")
                if d == "pathlib.Path":
                    return ("ext", "pathlib.Path")
                if d in ("pandas.DataFrame", "pandas.Series"):
                    return ("ext", d)
                if d in ("builtins.list", "builtins.sorted", "builtins.tuple", "builtins.reversed"):
                    return ("list", self.members_type(a[1][0], depth + 1) if a[1] else None)
                if d in ("builtins.dict",):
                    return ("dict", None, None)
                if d.startswith("numpy.") and d.split(".")[-1] in (
                        "array", "empty", "zeros", "ones", "full", "arange", "asarray", "mean", "squeeze", "conj",
                        "conjugate", "swapaxes", "interp", "absolute", "where", "isnan", "floor", "ceil", "ndarray"):
                    return ("ndarray",)
            return None
        if o == "method":
            rt = self.typeof(a[1], depth + 1)
            if a[0] in ("astype", "copy", "flatten", "reshape", "transpose", "squeeze", "conj") and rt == ("ndarray",):
                return rt
            if a[0] in ("copy", "set_index", "sort_index", "dropna", "append") and rt and rt[0] == "ext":
                return rt
            if a[0] in ("strip", "lower", "upper", "replace", "join", "format", "rstrip", "lstrip") :
                return ("prim", "str")
            if a[0] == "index":
                return ("prim", "int")
            if a[0] in ("get", "pop", "setdefault") and rt and rt[0] == "dict":
                return rt[2]
            return None
        if o == "elem":
            info = self.loopinfo.get(a[0])
            return info.get("etype") if info else None
        if o == "iv":
            return ("prim", "int")
        if o == "cv":
            info = self.loopinfo.get(a[0])
            if info and a[1] in info["init"]:
                return self.typeof(info["init"][a[1]], depth + 1)
            return None
        if o == "bin":
            l, r = self.typeof(a[1], depth + 1), self.typeof(a[2], depth + 1)
            if ("ndarray",) in (l, r):
                return ("ndarray",)
            if l == r and l in (("prim", "int"),) and a[0] in "+-*":
                return l
            if l and l[0] == "prim" and r and r[0] == "prim" and l[1] in ("int", "float") and r[1] in ("int", "float"):
                return ("prim", "float")
            if l and l[0] == "list" and a[0] == "+":
                return l
            return None
        if o in ("append", "concat", "aset", "lout"):
            return self.typeof(a[0], depth + 1) if isinstance(a[0], Node) else None
        return None

    def members_type(self, n, depth):
        """the type of the members of a collection"""
        if n.op == "obj":
            n = self.objs[n][1]
        if n is None or not isinstance(n, Node):
            return None
        if n.op == "setof" or n.op == "call" and n.args[0].op == "glob" and n.args[0].args[0] == "builtins.set" and n.args[1]:
            return self.members_type(n.args[0] if n.op == "setof" else n.args[1][0], depth + 1) if depth < 30 else None
        if n.op == "method" and n.args[0] in ("values", "keys"):
            t = self.typeof(n.args[1], depth)
            return (t[2] if n.args[0] == "values" else t[1]) if t and t[0] == "dict" else None
        t = self.typeof(n, depth)
        return t[1] if t and t[0] in ("list", "dict") else None

    def cls_of(self, t):
        if t and t[0] == "cls":
            return self.ix.classes.get(t[1])
        return None

    def is_model(self, t):
        c = self.cls_of(t)
        return c is not None and c.is_model()

    def new_obj(self, kind, init):
        self.nobj += 1
        n = N("obj", self.nobj)
        self.objs[n] = (kind, init)
        return n

    # ------------------------------------------------------------------ freeze
    def fz(self, n, st):
        """Value of n now: object references replaced by their current contents."""
        if n.op in ("const", "sym", "glob", "func", "cls", "elem", "iv", "cv") and not st.hf and not st.hc:
            return n
        memo = {}
        # children index of mutated locations
        chain = {}
        for (b, a) in st.hf:
            self._chain(chain, b, ("f", a))
        for b in st.hc:
            if b.op in ("attr", "idx"):
                self._chain(chain, b.args[0], ("c", b))
        busy = set()

        def rec(x):
            if not isinstance(x, Node):
                return x
            r = memo.get(x)
            if r is not None:
                return r
            if x in busy:
                return N("cyc")
            busy.add(x)
            r = self._fz1(x, st, rec, chain)
            busy.discard(x)
            memo[x] = r
            return r

        return rec(n)

    def _chain(self, chain, b, what):
        chain.setdefault(b, set()).add(what)
        while b.op in ("attr", "idx"):
            p = b.args[0]
            s = chain.setdefault(p, set())
            if ("v", b) in s:
                break
            s.add(("v", b))
            b = p

    def _fz1(self, x, st, rec, chain):
        o = x.op
        if o in ("const", "glob", "func", "cls", "elem", "iv", "cv", "raise", "undef", "unknown", "mod", "lam", "initial"):
            return x
        if x in st.hc:
            rec_state = st.hc[x]
            if x.op == "idx" and contains(rec_state, lambda y: y is x):
                ini = N("initial", x)
                b = x.args[0]
                if b.op == "obj":
                    b0 = mapstate(self.objs[b][1], rec) if self.objs[b][1] is not None else b
                elif b.op == "attr":
                    b0 = self._plain(b, st, rec)
                else:
                    b0 = b
                return subst(mapstate(subst(rec_state, {x: ini}), rec), {ini: N("idx", b0, rec(x.args[1]))})
            if x.op in ("sym", "attr") and contains(rec_state, lambda y: y is x):
                # the location's own name inside its contents is what it held on entry
                ini = N("initial", x)
                return subst(mapstate(subst(rec_state, {x: ini}), rec), {ini: x if x.op == "sym" else self._plain(x, st, rec)})
            if x.op not in ("obj", "mcopy") and contains(rec_state, lambda y: y is x):
                ini = N("initial", x)
                na = mapargs(x.args, rec)
                return subst(mapstate(subst(rec_state, {x: ini}), rec), {ini: x if na == x.args else N(x.op, *na)})
            return mapstate(rec_state, rec)
        upd = {}
        dyn = []
        for w in sorted(chain.get(x, ()), key=str):
            if w[0] == "f":
                upd[w[1]] = rec(st.hf[(x, w[1])])
        for w in sorted(chain.get(x, ()), key=str):
            if w[0] in ("v", "c"):
                b = w[1]
                if b.op == "attr":
                    if b.args[1] not in upd:
                        upd[b.args[1]] = rec(b)
                else:
                    dyn.append((b.args[1], rec(b)))
        if o == "obj":
            kind, init = self.objs[x]
            if isinstance(kind, ClassInfo) and init is None:
                fields = dict(upd)
                return N("inst", kind.qual, tuple(sorted(fields.items())))
            base = mapstate(init, rec) if init is not None else NONE
            return self._wrap(base, upd, dyn, kind if isinstance(kind, ClassInfo) else None)
        if o == "attr":
            # attribute of something: the base's own updates do not matter, but
            # nested mutations of this very location do
            base = self._plain(x, st, rec)
            t = self.typeof(x)
            return self._wrap(base, upd, dyn, self.cls_of(t))
        if o == "mcopy":
            inner = rec(x.args[0])
            return self._wrap(N("mcopy", inner) if False else inner, upd, dyn, self.cls_of(self.typeof(x)))
        if o == "cmp" and x.args[0] == "is" and x.args[2] is NONE and not contains(x.args[1], lambda y: y.op in ("obj", "cv", "lout")):
            return x                       # identity is not changed by mutation
        na = mapargs(x.args, rec)
        base = x if na == x.args else N(x.op, *na)
        if upd or dyn:
            return self._wrap(base, upd, dyn, self.cls_of(self.typeof(x)))
        return base

    def _plain(self, x, st, rec):
        """attr(base,name) as a value read earlier: freeze the base without its
        own field updates (they were resolved at read time)."""
        b = x.args[0]
        if b.op == "obj":
            kind, init = self.objs[b]
            if init is not None:
                return N("attr", mapstate(init, rec), x.args[1])
            return N("attr", b, x.args[1])
        if b.op == "attr":
            pb = self._plain(b, st, rec)
            return x if pb is b else N("attr", pb, x.args[1])
        if b.op == "sym":
            return x
        if b.op == "idx":
            bb = b.args[0]
            na = N("idx", self._plain(bb, st, rec) if bb.op == "attr" and bb not in st.hc else rec(bb), rec(b.args[1]))
            return N("attr", na, x.args[1])
        return N("attr", rec(b), x.args[1])

    def _wrap(self, base, upd, dyn, cls):
        r = base
        if upd:
            r = N("upd", r, cls.qual if cls else "", tuple(sorted(upd.items())))
        for i, v in dyn:
            r = N("aset", r, i, v)
        return r

    # ------------------------------------------------------------------ heap
    def cur(self, base, st):
        s = st.hc.get(base)
        if s is not None:
            return s
        if base.op == "obj":
            k, init = self.objs[base]
            if init is not None:
                return init
        return base

    def roots(self, n, st, seen=None):
        """Which caller-visible objects may n share storage with?"""
        if seen is None:
            seen = set()
        if n in seen:
            return set()
        seen.add(n)
        o, a = n.op, n.args
        R = lambda x: self.roots(x, st, seen)
        if o == "sym":
            return {a[0]}
        if o == "attr":
            if a[0] in st.hc or a[0].op == "obj":
                f = st.hf.get((a[0], a[1]))
                if f is not None:
                    return R(f)
                if a[0].op == "obj":
                    kind, init = self.objs[a[0]]
                    if init is not None and init.op == "new":
                        for k, v in init.args[1]:
                            if k == a[1]:
                                return R(v)
                        star = init.args[2]
                        return self._star_roots(star, a[1], st, seen)
                    return set()
            if a[0].op == "call" and a[0].args[0].op == "glob" and a[0].args[0].args[0] == "copy.copy" and a[0].args[1]:
                return R(a[0].args[1][0])
            return R(a[0])
        if o == "idx":
            b = a[0]
            adv = {"list", "cmp", "flatmap", "un", "obj"}
            if b.op == "attr" and b.args[1] in ("loc", "iloc") and (a[1].op in adv or a[1].op == "tuple" and any(x.op in adv for x in a[1].args)):
                return set()                 # rows or columns picked from a table
            s = self.cur(b, st)
            out = set()
            if s is not b:
                out |= self._elem_roots(s, st, seen)
                return out
            if b.op in ("list", "tuple", "dict", "flatmap", "dflat", "dupd", "append", "concat", "aset", "aflat"):
                return self._elem_roots(b, st, seen)
            bt = self.typeof(b)
            if bt and bt[0] == "ext" and ("DataFrame" in bt[1] or "Series" in bt[1]):
                if a[1].op in ("list", "cmp", "flatmap", "idx", "obj", "tuple", "un", "method"):
                    return set()
            return R(b)
        if o == "phi":
            return R(a[1]) | R(a[2])
        if o == "cv":
            info = self.loopinfo.get(a[0])
            out = set()
            if info:
                for k in ("init", "next"):
                    v = info.get(k, {}).get(a[1])
                    if v is not None:
                        out |= R(v)
            return out
        if o == "elem":
            info = self.loopinfo.get(a[0])
            if info and info.get("source") is not None:
                return self.roots(N("idx", info["source"], n), st, seen)
            return set()
        if o in ("lout",):
            out = set()
            for x in kids(n):
                out |= R(x)
            return out
        if o == "first":
            return R(a[5]) if isinstance(a[5], Node) else set()
        if o == "obj":
            kind, init = self.objs[n]
            if n in st.hc:
                return set()
            if init is not None and init.op == "call" and init.args[0].op == "glob" and init.args[0].args[0] in VIEW_FUNCS:
                return R(init)
            if init is not None and init.op == "call" and init.args[0].op == "glob" and init.args[0].args[0] == "numpy.array":
                if any(k == "copy" and v is FALSE for k, v in init.args[2]):
                    return R(init.args[1][0])
            return set()
        if o == "call" and a[0].op == "glob":
            d = a[0].args[0]
            if d in VIEW_FUNCS and a[1]:
                return R(a[1][0])
            if d == "numpy.array" and any(k == "copy" and v is FALSE for k, v in a[2]) and a[1]:
                return R(a[1][0])
            if d in PICK and a[1]:
                out = set()
                for x in a[1]:
                    out |= self._elem_roots(x, st, seen) | (R(x) if len(a[1]) > 1 else set())
                return out
            return set()
        if o == "method":
            if a[0] in VIEW_METHODS:
                return R(a[1])
            if a[0] == "astype" and any(k == "copy" and v is FALSE for k, v in a[3]):
                return R(a[1])
            return set()
        if o == "aset" or o == "upd":
            return R(a[0])
        return set()

    def _star_roots(self, star, name, st, seen):
        if star is None or star is NONE:
            return set()
        # dict updates: explicit value wins; dictof() is a deep conversion
        if star.op == "dupd":
            for k, v in star.args[1]:
                if k.op == "const" and k.args[0] == name:
                    return self.roots(v, st, seen)
            return self._star_roots(star.args[0], name, st, seen)
        if star.op == "dict":
            for k, v in star.args[0]:
                if k.op == "const" and k.args[0] == name:
                    return self.roots(v, st, seen)
            return set()
        if star.op == "dictof":
            return set()
        if star.op == "obj":
            return self._star_roots(self.cur(star, st), name, st, seen)
        if star.op == "sym" or star.op == "attr":
            return self.roots(star, st, seen)
        return set()

    def _elem_roots(self, s, st, seen):
        o, a = s.op, s.args
        out = set()
        R = lambda x: self.roots(x, st, seen)
        if o in ("list", "tuple", "set"):
            for x in a:
                out |= R(x)
        elif o == "dict":
            for k, v in a[0]:
                out |= R(v)
        elif o in ("append",):
            out |= self._elem_roots(a[0], st, seen) | R(a[1])
        elif o in ("concat",):
            out |= self._elem_roots(a[0], st, seen) | self._elem_roots(a[1], st, seen)
        elif o == "dmerge":
            out |= self._elem_roots(a[0], st, seen) | self._elem_roots(a[1], st, seen)
        elif o == "mutcall":
            out |= self._elem_roots(a[1], st, seen)
            for x in a[2]:
                out |= R(x) | self._elem_roots(x, st, seen)
        elif o == "dupd":
            out |= self._elem_roots(a[0], st, seen)
            for k, v in a[1]:
                out |= R(v)
        elif o in ("aset",):
            out |= self._elem_roots(a[0], st, seen)
            out |= R(a[2]) if self._reflike(a[2]) else set()
        elif o in ("phi",):
            out |= self._elem_roots(a[1], st, seen) | self._elem_roots(a[2], st, seen)
        elif o == "flatmap":
            out |= self._elem_roots(a[3], st, seen)
        elif o in ("dflat", "aflat"):
            out |= self._elem_roots(a[0], st, seen)
            out |= self._elem_roots(a[4], st, seen)
        elif o == "obj":
            c = self.cur(s, st)
            if c is not s:
                out |= self._elem_roots(c, st, seen)
        elif o == "cv":
            if ("cv", s) not in seen:
                seen.add(("cv", s))
                for k in ("init", "next"):
                    v = self.loopinfo.get(a[0], {}).get(k, {}).get(a[1])
                    if v is not None:
                        out |= self._elem_roots(v, st, seen)
        elif o in ("sym", "attr", "idx", "lout", "elem"):
            out |= R(s)
        elif o == "call" and a[0].op == "glob" and a[0].args[0] in ("builtins.list", "builtins.dict", "builtins.sorted", "builtins.set", "builtins.tuple", "copy.copy"):
            if a[1]:
                out |= self._elem_roots(a[1][0], st, seen)
            for k, v in a[2]:
                out |= R(v)
        elif o == "call" and a[0].op == "glob" and a[0].args[0] in PASS_ON:
            for x in a[1]:
                out |= self._elem_roots(x, st, seen)
        elif o == "method" and a[0] in ("copy", "items", "values"):
            out |= self._elem_roots(a[1], st, seen)
        return out

    def _reflike(self, v):
        return True

    def record_mut(self, base, kind, st, node):
        r = self.roots(base, st)
        f = self.frame
        self.muts.append(Mut(base, r, kind, f.module.rel, getattr(node, "lineno", 0), f.func.qual if f.func else "", list(st.pc), list(self.stack)))

    def set_state(self, base, st, fn, kind, node, cond=None):
        """Replace the contents of base by fn(current contents)."""
        if base.op == "phi":
            c = base.args[0]
            self.set_state(base.args[1], st, fn, kind, node, c if cond is None else N("and", cond, c))
            self.set_state(base.args[2], st, fn, kind, node, neg(c) if cond is None else N("and", cond, neg(c)))
            return
        self.record_mut(base, kind, st, node)
        if base.op in ("const",):
            return
        old = self.contents(base, st)
        new = fn(old)
        if cond is not None:
            new = phi(cond, new, old)
        st.hc[base] = new

    def contents(self, base, st):
        """contents of a location so far (a part of an object: the part of what
        the object holds now)"""
        old = self.cur(base, st)
        if old is base and base.op == "idx":
            p = self.cur(base.args[0], st)
            if p is not base.args[0] and not contains(p, lambda y: y is base):
                return N("idx", p, base.args[1])
        return old

    def set_field(self, base, name, val, st, node, cond=None):
        if base.op == "phi":
            c = base.args[0]
            self.set_field(base.args[1], name, val, st, node, c if cond is None else N("and", cond, c))
            self.set_field(base.args[2], name, val, st, node, neg(c) if cond is None else N("and", cond, neg(c)))
            return
        self.record_mut(base, f"store to .{name}", st, node)
        if cond is not None:
            val = phi(cond, val, self.read_attr(base, name, st, node))
        st.hf[(base, name)] = val

    def read_attr(self, base, name, st, node=None):
        o = base.op
        if o == "phi":
            return phi(base.args[0], self.read_attr(base.args[1], name, st, node), self.read_attr(base.args[2], name, st, node))
        f = st.hf.get((base, name))
        if f is not None:
            return f
        if o == "glob":
            r = self.ix.resolve_dotted(base.args[0] + "." + name)
            return self.of_resolved(r, st)
        if o == "mod":
            r = self.ix.resolve_dotted(base.args[0] + "." + name)
            return self.of_resolved(r, st)
        if o == "cls":
            c = self.ix.classes[base.args[0]]
            m = c.find(name)
            if m is not None:
                if m.kind in ("class",):
                    return N("bound", base, m.qual)
                return N("func", m.qual)
            fd = c.field(name)
            if fd is not None and fd[1] is not None:
                return N("attr", base, name)
            return N("attr", base, name)
        if o == "super":
            c = self.ix.classes[base.args[1]]
            selft = self.cls_of(self.typeof(base.args[0])) or c
            m = selft.find_super(c, name)
            if m is None:
                return N("attr", base, name)
            return N("bound", base.args[0], m.qual)
        if o == "mcopy":
            t = self.cls_of(self.typeof(base))
            m = t.find(name) if t else None
            if m is not None:
                if m.kind == "prop":
                    return self.invoke(m, base, [], {}, st, node)
                return N("bound", base, m.qual)
            return self.read_attr(base.args[0], name, st, node)
        if o == "obj":
            kind, init = self.objs[base]
            if init is not None and init.op == "new":
                for k, v in init.args[1]:
                    if k == name:
                        return v
                v = self._star_get(init.args[2], name)
                if v is not None:
                    return v
        if name in ("real", "imag", "T") and base in st.hc and self.cls_of(self.typeof(base)) is None:
            return N("attr", self.fz(base, st), name)
        t = self.typeof(base)
        c = self.cls_of(t)
        if c is not None:
            m = c.find(name)
            if m is not None:
                if m.kind == "prop":
                    return self.invoke(m, base, [], {}, st, node)
                if m.kind == "static":
                    return N("func", m.qual)
                return N("bound", base, m.qual)
        r = N("attr", base, name)
        return r

    def _star_get(self, star, name):
        """explicit value stored under name in a dict-building term, if known"""
        if star is None or star is NONE:
            return None
        if star.op == "dupd":
            for k, v in reversed(star.args[1]):
                if k.op == "const" and k.args[0] == name:
                    return v if v.op != "del" else None
                if k.op != "const":
                    return None
            return self._star_get(star.args[0], name)
        if star.op == "dict":
            for k, v in star.args[0]:
                if k.op == "const" and k.args[0] == name:
                    return v
        return None

    # ------------------------------------------------------------------ names
    def of_resolved(self, r, st):
        if isinstance(r, ClassInfo):
            return N("cls", r.qual)
        if isinstance(r, Func):
            return N("func", r.qual)
        if isinstance(r, Module):
            return N("mod", r.name)
        if isinstance(r, tuple) and r[0] == "assign":
            return self.module_const(r[1], r[2])
        if isinstance(r, str):
            return N("glob", r)
        return N("unknown", "name")

    def module_const(self, m, name):
        key = (m.name, name)
        if key in self.modconst:
            return self.modconst[key]
        self.modconst[key] = N("glob", f"{m.name}.{name}")
        v = m.assigns[name]
        if isinstance(v, (ast.Constant, ast.Dict, ast.List, ast.Tuple, ast.BinOp, ast.Name, ast.JoinedStr, ast.DictComp, ast.ListComp, ast.Set, ast.UnaryOp)):
            try:
                st = State()
                fr = Frame(None, m, None, None)
                old = getattr(self, "frame", None)
                self.frame = fr
                n = self.fz(self.ev(v, st), st)
                self.frame = old
                self.modconst[key] = n
            except AnalysisError:
                pass
        return self.modconst[key]

    def name(self, nm, st, node):
        if nm in st.env:
            return st.env[nm]
        m = self.frame.module
        if nm == "ANY" and m.name.startswith("spec."):
            return N("any")
        r = self.ix.resolve(m, nm)
        if r is not None:
            return self.of_resolved(r, st)
        if hasattr(builtins, nm):
            return N("glob", "builtins." + nm)
        fb = getattr(self, "fallback", None)
        if fb is not None:
            r = fb(nm)
            if r is not None:
                return self.of_resolved(r, st)
        return N("glob", "?." + nm)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        n = self._ev(e, st)
        if hasattr(e, "lineno") and n not in self.lines and self.frame.module is not None:
            self.lines[n] = (self.frame.module.rel, e.lineno)
        return n

    def val(self, e, st):
        """Evaluate to a frozen value (no object references)."""
        return self.fz(self.ev(e, st), st)

    def _ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return N("unknown", type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        return self.name(e.id, st, e)

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        return self.read_attr(b, e.attr, st, e)

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        i = self.ev_index(e.slice, st)
        return self.index(b, i, st, e)

    def ev_index(self, s, st):
        if isinstance(s, ast.Slice):
            f = lambda x: NONE if x is None else self.val(x, st)
            return N("slice", f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return N("tuple", *[self.ev_index(x, st) for x in s.elts])
        return self.val(s, st)

    def index(self, b, i, st, node):
        if b.op == "phi":
            return phi(b.args[0], self.index(b.args[1], i, st, node), self.index(b.args[2], i, st, node))
        c = self.cls_of(self.typeof(b))
        if c is not None:
            m = c.find("__getitem__")
            if m is not None:
                args = [i]
                if i.op == "tuple":
                    args = [i]
                return self.call_method_fi(m, b, args, {}, st, node)
        if b.op in ("tuple", "list") and i.op == "const" and isinstance(i.args[0], int):
            k = i.args[0]
            if -len(b.args) <= k < len(b.args):
                return b.args[k]
        if b.op == "dict" and i.op == "const":
            for k, v in b.args[0]:
                if k is i:
                    return v
        s = self.cur(b, st)
        if s is not b:
            v = self._lookup(s, i)
            if v is not None:
                return v
        r = N("idx", b, i)
        if self.throwlog is not None and (self.typeof(b) or ("",))[0] == "dict":
            self.throwlog.append(r)
        return r

    def _lookup(self, s, i):
        """Known element i of container state s (object reference preserved)."""
        while True:
            if s.op == "dupd":
                ks = s.args[1]
                for k, v in reversed(ks):
                    if k is i and v.op != "del":
                        return v
                    if not (k.op == "const" and i.op == "const"):
                        return None
                s = s.args[0]
                continue
            if s.op == "dict":
                for k, v in s.args[0]:
                    if k is i:
                        return v
                return None
            if s.op == "list" and i.op == "const" and isinstance(i.args[0], int) and -len(s.args) <= i.args[0] < len(s.args):
                return s.args[i.args[0]]
            if s.op == "aset" and s.args[1] is i:
                return s.args[2]
            return None

    def e_Tuple(self, e, st):
        return N("tuple", *[self.ev(x, st) for x in e.elts])

    def e_List(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = N("list")
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    r = N("concat", r, self.val(x.value, st))
                else:
                    r = N("append", r, self.ev(x, st))
            return self.new_obj("list", r)
        return self.new_obj("list", N("list", *[self.ev(x, st) for x in e.elts]))

    def e_Set(self, e, st):
        return N("setof", N("list", *[self.val(x, st) for x in e.elts]))

    def e_Dict(self, e, st):
        r = N("dict", ())
        pairs = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                base = self.cur(self.ev(v, st), st)
                if pairs:
                    r = N("dmerge", N("dupd", r, tuple(pairs)) if not (r.op == "dict" and not r.args[0]) else N("dict", tuple(pairs)), base)
                    pairs = []
                elif r.op == "dict" and not r.args[0]:
                    r = base
                else:
                    r = N("dmerge", r, base)
            else:
                pairs.append((self.val(k, st), self.ev(v, st)))
        if pairs:
            r = N("dict", tuple(pairs)) if (r.op == "dict" and not r.args[0]) else N("dupd", r, tuple(pairs))
        return self.new_obj("dict", r)

    def e_BinOp(self, e, st):
        a, b = self.val(e.left, st), self.val(e.right, st)
        return self.binop(type(e.op).__name__, a, b)

    OPS = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**", "BitAnd": "&",
           "BitOr": "|", "BitXor": "^", "MatMult": "@", "LShift": "<<", "RShift": ">>"}

    def binop(self, opn, a, b):
        op = self.OPS[opn]
        if op == "/" and (self.pathlike(a) or (self.strlike(b) and a.op != "const") or self.pathlike(b)):
            return N("path", a, b)
        if op == "+" and (self.strlike(a) or self.strlike(b)):
            return N("cat", a, b)
        if op == "+" and (self.listlike(a) or self.listlike(b)):
            return N("concat", a, b)
        if op == "%" and self.strlike(a):
            return N("fmtop", a, b)
        if op == "|" and self.typeof(a) == ("set",):
            return N("setupd", a, b)
        return N("bin", op, a, b)

    def pathlike(self, n):
        if n.op == "phi":
            return self.pathlike(n.args[1]) and self.pathlike(n.args[2])
        t = self.typeof(n)
        return n.op == "path" or t == ("ext", "pathlib.Path")

    def strlike(self, n):
        t = self.typeof(n)
        return t == ("prim", "str")

    def listlike(self, n):
        if n.op in ("list", "flatmap", "append", "concat"):
            return True
        t = self.typeof(n)
        return bool(t) and t[0] == "list"

    def e_UnaryOp(self, e, st):
        v = self.val(e.operand, st)
        if isinstance(e.op, ast.Not):
            return neg(self.truth(v))
        if isinstance(e.op, ast.USub):
            if v.op == "const" and isinstance(v.args[0], (int, float)):
                return const(-v.args[0])
            return N("un", "-", v)
        if isinstance(e.op, ast.UAdd):
            return v
        return N("un", "~", v)

    def truth(self, v):
        if v.op == "const":
            return TRUE if v.args[0] else FALSE
        if v.op in ("cmp", "not", "and", "or", "truth", "exists", "throws"):
            return v
        if v.op == "phi":
            return phi(v.args[0], self.truth(v.args[1]), self.truth(v.args[2]))
        return N("truth", v)

    def e_BoolOp(self, e, st):
        vs = [self.val(x, st) for x in e.values]
        boolish = all(v.op in ("cmp", "not", "and", "or", "truth", "exists", "throws") or (v.op == "const" and isinstance(v.args[0], bool)) for v in vs)
        op = "and" if isinstance(e.op, ast.And) else "or"
        if boolish or True:
            # value of and/or: gated on truth of the earlier operands
            r = vs[-1]
            for v in reversed(vs[:-1]):
                t = self.truth(v)
                if op == "and":
                    r = N("and", t, r) if boolish else phi(t, r, v)
                else:
                    r = N("or", t, r) if boolish else phi(t, v, r)
            return r

    def e_Compare(self, e, st):
        left = self.val(e.left, st)
        out = []
        for op, c in zip(e.ops, e.comparators):
            right = self.val(c, st)
            out.append(self.cmp(type(op).__name__, left, right))
            left = right
        return conj(out) if len(out) > 1 else out[0]

    def cmp(self, op, a, b):
        if op == "Gt":
            return N("cmp", "<", b, a)
        if op == "GtE":
            return neg(N("cmp", "<", a, b))
        if op == "Lt":
            return N("cmp", "<", a, b)
        if op == "LtE":
            return neg(N("cmp", "<", b, a))
        if op == "Eq":
            return N("cmp", "==", a, b)
        if op == "NotEq":
            return neg(N("cmp", "==", a, b))
        if op == "Is":
            return N("cmp", "is", a, b)
        if op == "IsNot":
            return neg(N("cmp", "is", a, b))
        if op == "In":
            return N("cmp", "in", a, b)
        return neg(N("cmp", "in", a, b))

    def e_IfExp(self, e, st):
        c = self.truth(self.val(e.test, st))
        if c is TRUE:
            return self.ev(e.body, st)
        if c is FALSE:
            return self.ev(e.orelse, st)
        return phi(c, self.ev(e.body, st), self.ev(e.orelse, st))

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.val(v.value, st)
                spec = self.e_JoinedStr(v.format_spec, st) if v.format_spec is not None else const("")
                parts.append(N("fmt", x, v.conversion, spec))
        return N("cat", *parts)

    def e_FormattedValue(self, e, st):
        return N("fmt", self.val(e.value, st), e.conversion, const(""))

    def e_Starred(self, e, st):
        return N("starred", self.val(e.value, st))

    def e_Lambda(self, e, st):
        return self.closure(e, st)

    def closure(self, e, st):
        self.nobj += 1
        n = N("lam", self.nobj)
        self.closures[n] = (e, dict(st.env), self.frame)
        self.lamstate[n] = st.copy()
        return n

    def lam_body(self, n):
        """(number of parameters, value) of a lambda passed on as a value"""
        e, env, frame = self.closures[n]
        if e.args.vararg or e.args.kwarg or e.args.kwonlyargs or (not isinstance(e, ast.Lambda) and (
                e.decorator_list or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Raise)) for x in ast.walk(e)))):
            return None
        st = self.lamstate[n].copy()
        ps = [N("sym", f"lambda {len(self.lamstack)}.{i}") for i in range(len(e.args.args))]
        if n in self.lamstack or len(self.lamstack) > 4:
            return None
        self.lamstack.append(n)
        old = self.frame
        try:
            self.frame = frame
            v = self.call_closure(n, ps, {}, st, e)
            if v is None:
                return None
            return len(ps), self.fz(v, st)
        finally:
            self.frame = old
            self.lamstack.pop()

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_Await(self, e, st):
        return N("unknown", "await")

    def e_ListComp(self, e, st):
        return self.new_obj("list", self.comp_or_loop(e, st, lambda s: N("list", self.ev(e.elt, s)), "l"))

    def e_GeneratorExp(self, e, st):
        return self.comp_or_loop(e, st, lambda s: N("list", self.ev(e.elt, s)), "l")

    def e_SetComp(self, e, st):
        return N("setof", self.comp_or_loop(e, st, lambda s: N("list", self.ev(e.elt, s)), "l"))

    def e_DictComp(self, e, st):
        body = lambda s: N("dict", ((self.val(e.key, s), self.ev(e.value, s)),))
        return self.new_obj("dict", self.comp_or_loop(e, st, body, "d"))

    def comp_or_loop(self, e, st, body, kind):
        """A comprehension whose body neither raises nor has effects is a
        fold; any other is run as the loop that builds the same container."""
        ev0, mu0, cl0, nt0 = len(self.events), len(self.muts), len(self.calls), len(self.notes)
        out0, npc = len(self.frame.outcomes), len(st.pc)
        thr0 = len(self.throwlog) if self.throwlog is not None else 0
        snap = (self.nlid, self.nobj, dict(self.types))
        hf, hc = dict(st.hf), dict(st.hc)
        r = self.comp(e.generators, st, body, kind)
        if len(self.frame.outcomes) == out0 and len(self.events) == ev0 and len(self.muts) == mu0:
            return r
        self.nlid, self.nobj, self.types = snap
        del self.events[ev0:], self.muts[mu0:], self.calls[cl0:], self.notes[nt0:], self.frame.outcomes[out0:], st.pc[npc:]
        if self.throwlog is not None:
            del self.throwlog[thr0:]
        st.hf, st.hc = hf, hc
        loop = getattr(e, "_as_loop", None)
        if loop is None:
            acc = ast.Name("@acc", ast.Load())
            if kind == "l":
                loop = ast.Expr(ast.Call(ast.Attribute(acc, "append", ast.Load()), [e.elt], []))
            else:
                loop = ast.Assign([ast.Subscript(acc, e.key, ast.Store())], e.value)
            for g in reversed(e.generators):
                for c in reversed(g.ifs):
                    loop = ast.If(c, [loop], [])
                loop = ast.For(g.target, g.iter, [loop], [])
            for x in ast.walk(loop):
                if isinstance(x, (ast.stmt, ast.expr)) and not hasattr(x, "lineno"):
                    ast.copy_location(x, e)
            e._as_loop = loop
        env = dict(st.env)
        st.env["@acc"] = self.new_obj("list", N("list")) if kind == "l" else self.new_obj("dict", N("dict", ()))
        end = self.s_For(loop, st)
        if end is None:
            st.pc.append(FALSE)
            st.env = env
            return NONE
        v = self.cur(end.env["@acc"], end)
        st.pc, st.hf, st.hc, st.env = end.pc, end.hf, end.hc, env
        return v

    FOLD = ast.parse("for @x in @it:\n    @acc = @f(@acc, @x)".replace("@", "fold_")).body[0]

    def fold(self, args, st, node):
        """reduce(f, it, acc) is the loop that computes it"""
        env = dict(st.env)
        st.env["fold_f"], st.env["fold_it"], st.env["fold_acc"] = args
        st.env.pop("fold_x", None)
        end = self.s_For(self.FOLD, st)
        if end is None:
            st.pc.append(FALSE)
            st.env = env
            return NONE
        v = end.env["fold_acc"]
        st.pc, st.hf, st.hc, st.env = end.pc, end.hf, end.hc, env
        return v

    def comp(self, gens, st, body, kind):
        s = st.copy()

        def level(k):
            if k == len(gens):
                y = body(s)
                return y
            g = gens[k]
            it = self.ev(g.iter, s)
            lid, dom, tv = self.domain(it, s, g)
            self.bind(g.target, tv, s, g)
            n0 = len(s.pc)
            conds = []
            for c in g.ifs:
                cc = self.truth(self.val(c, s))
                conds.append(cc)
                s.pc.append(cc)
            y = level(k + 1)
            del s.pc[n0:]
            for cc in reversed(conds):
                y = phi(cc, y, N("list") if kind == "l" else N("dict", ()))
            if kind == "l":
                return N("flatmap", lid, dom, FALSE, y, ())
            return N("dflat", N("dict", ()), lid, dom, FALSE, y, ())

        r = level(0)
        st.hf, st.hc = s.hf, s.hc
        return r

    # ------------------------------------------------------------------ iteration domains
    def domain(self, it, st, node):
        """-> (lid, domain node, target value).  Sequences are iterated by
        position so that range(len(xs)), enumerate(xs) and direct iteration
        have one form."""
        self.nlid += 1
        lid = self.nlid
        iv, el = N("iv", lid), N("elem", lid)
        info = {"init": {}, "next": {}, "source": None, "etype": None, "nobj0": self.nobj}
        self.loopinfo[lid] = info

        def seq_len(x):
            return N("call", N("glob", "builtins.len"), (self.fz(x, st),), ())

        def one(x):
            """-> (kind, dom, value)"""
            if x.op == "method" and x.args[0] == "readlines" and not x.args[2] and not x.args[3]:
                x = x.args[1]                # the lines of a file, one by one
            f = x
            if x.op == "obj":
                init = self.cur(x, st)
                if init.op == "call" and init.args[0].op == "glob":
                    f = init
            if f.op == "call" and f.args[0].op == "glob":
                d = f.args[0].args[0]
                a = f.args[1]
                if d == "builtins.range":
                    if len(a) == 1:
                        return ("n", a[0], iv)
                    if len(a) == 2 or (len(a) == 3 and a[2] is const(1)):
                        if a[0] is const(0):
                            return ("n", a[1], iv)
                        return ("n", N("bin", "-", a[1], a[0]), N("bin", "+", a[0], iv))
                    info["etype"] = ("prim", "int")
                    return ("d", N("range3", *a), el)
                if d == "builtins.enumerate":
                    k, dm, v = one(a[0])
                    start = a[1] if len(a) > 1 else dict(f.args[2]).get("start", const(0))
                    c = iv if start is const(0) else N("bin", "+", start, iv)
                    return (k, dm, N("tuple", c, v))
                if d == "builtins.zip":
                    rs = [one(y) for y in a]
                    if all(r[0] == "n" for r in rs):
                        lens = []
                        for r in rs:
                            if r[1] not in lens:
                                lens.append(r[1])
                        n = lens[0] if len(lens) == 1 else N("call", N("glob", "builtins.min"), tuple(lens), ())
                        return ("n", n, N("tuple", *[r[2] for r in rs]))
                    if all(r[0] == "d" and r[1] is rs[0][1] for r in rs):
                        return ("d", rs[0][1], N("tuple", *[r[2] for r in rs]))
                    return ("d", N("zip", *[N("dom", const(r[0]), r[1]) for r in rs]), N("tuple", *[r[2] for r in rs]))
                if d in ("tqdm.tqdm", "builtins.list", "builtins.tuple", "builtins.iter"):
                    return one(a[0])
            if x.op == "method" and x.args[0] in ("items", "keys", "values") and not x.args[2]:
                b = x.args[1]
                t = self.typeof(b)
                dm = N("keys", self.fz(b, st))
                info["source"] = None
                if t and t[0] == "dict":
                    info["etype"] = t[1]
                v = self.index(b, el, st, node)
                if x.args[0] == "items":
                    return ("d", dm, N("tuple", el, v))
                return ("d", dm, el if x.args[0] == "keys" else v)
            t = self.typeof(x)
            if t and t[0] == "dict" or x.op in ("dflat", "dict", "dupd"):
                info["etype"] = t[1] if t and t[0] == "dict" else None
                return ("d", N("keys", self.fz(x, st)), el)
            c = self.cls_of(t)
            if c is not None:
                m = c.find("__iter__")
                if m is not None:
                    v = self.call_method_fi(m, x, [], {}, st, node)
                    if v.op == "method" and v.args[0] == "__iter__":
                        return one(v.args[1])
                    if v.op == "call" and v.args[0] is N("glob", "builtins.iter"):
                        return one(v.args[1][0])
                    return ("d", N("iter", self.fz(v, st)), el)
            if x.op == "setof" or (x.op == "call" and x.args[0] is N("glob", "builtins.set")):
                return ("d", N("members", self.fz(x, st)), el)
            if x.op in ("list", "flatmap", "append", "concat", "obj", "attr", "sym", "idx", "phi", "tuple", "lout", "cv", "elem") or x.op == "call" or x.op == "method":
                if x.op == "method" or (x.op == "call" and x.args[0].op not in ("func", "vfunc") and self.typeof(x) is None):
                    # unknown iterable object (generator, groupby, ...): by element
                    return ("d", N("iter", self.fz(x, st)), el)
                v = self.index(x, iv, st, node)
                return ("n", seq_len(x), v)
            return ("d", N("iter", self.fz(x, st)), el)

        k, dm, v = one(it)
        dom = N("dom", const(k), dm)
        return lid, dom, v

    # ------------------------------------------------------------------ binding
    def bind(self, target, v, st, node):
        if isinstance(target, ast.Name):
            st.env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            for k, t in enumerate(target.elts):
                if isinstance(t, ast.Starred):
                    self.bind(t.value, N("unknown", "star"), st, node)
                else:
                    self.bind(t, self.index(v, const(k), st, node), st, node)
        elif isinstance(target, ast.Attribute):
            b = self.ev(target.value, st)
            self.set_field(b, target.attr, v, st, target)
        elif isinstance(target, ast.Subscript):
            b = self.ev(target.value, st)
            i = self.ev_index(target.slice, st)
            c = self.cls_of(self.typeof(b))
            if c is not None and c.find("__setitem__") is not None:
                self.call_method_fi(c.find("__setitem__"), b, [i, v], {}, st, node)
                return
            self.setitem(b, i, v, st, target)

    def detach(self, b, st):
        """elements of a list or dictionary read earlier keep the value they had
        when an element is replaced"""
        for n, x in list(st.env.items()):
            if not isinstance(x, Node) or x.op in ("const", "sym", "obj", "func", "glob", "cls", "mod", "lam"):
                continue
            locs = {y for y in walk(x) if y.op == "idx" and y.args[0] is b and y not in st.hc and self.cls_of(self.typeof(y)) is None}
            if locs:
                st.env[n] = subst(x, {y: self.fz(y, st) for y in locs})

    def setitem(self, b, i, v, st, node):
        t = self.typeof(b)
        isd = (t and t[0] == "dict")
        cs = self.cur(b, st)
        if isd or (t and t[0] == "list") or cs.op in ("dict", "dupd", "dictof", "dflat", "list"):
            self.detach(b, st)
        if isd or cs.op in ("dict", "dupd", "dictof", "dflat"):
            def fn(old):
                if old.op == "dupd":
                    return N("dupd", old.args[0], old.args[1] + ((i, v),))
                return N("dupd", old, ((i, v),))
            self.set_state(b, st, fn, "item store", node)
        else:
            vv = self.fz(v, st)
            # container[i] = v  on arrays / frames / unknown
            self.set_state(b, st, lambda old: N("aset", old, i, vv), "item store", node)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        # silent calls
        d = dotted(e.func)
        if d == "super":
            selfn = self.frame.selfnode
            return N("super", selfn if selfn is not None else NONE, self.frame.cls.qual if self.frame.cls else "")
        fn = self.ev(e.func, st)
        if fn.op == "glob" and fn.args[0].startswith(SILENT):
            for a in e.args:
                self.ev(a, st)
            return NONE
        args = []
        star = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.written_out(a.value, st)
                if v is None:
                    v = self.ev(a.value, st)
                    xs = self.literal_items(v, st)
                    v = N("tuple", *xs) if xs is not None else v
                if v.op == "tuple":
                    args += list(v.args)
                else:
                    self.notes.append(f"starred argument at {self.frame.module.rel}:{getattr(e, 'lineno', 0)}")
                    args.append(N("starred", self.fz(v, st)))
            else:
                args.append(self.ev(a, st))
        kws = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, st)
                d = self.cur(v, st)
                if d.op == "dict" and all(x.op == "const" and isinstance(x.args[0], str) for x, _ in d.args[0]):
                    kws.update({x.args[0]: y for x, y in d.args[0]})
                else:
                    star = v if star is None else N("dmerge", self.fz(star, st), self.fz(v, st))
            else:
                kws[k.arg] = self.ev(k.value, st)
        return self.call(fn, args, kws, star, st, e)

    def call(self, fn, args, kws, star, st, node):
        o = fn.op
        if o == "phi":
            # gated callee
            t0 = len(self.throwlog or ())
            s1 = st.copy()
            s1.pc.append(fn.args[0])
            a = self.call(fn.args[1], args, kws, star, s1, node)
            t1 = len(self.throwlog or ())
            s2 = st.copy()
            s2.pc.append(neg(fn.args[0]))
            b = self.call(fn.args[2], args, kws, star, s2, node)
            if self.throwlog:
                self.throwlog[t0:] = [N("gated", fn.args[0] if i < t1 else neg(fn.args[0]), x) for i, x in enumerate(self.throwlog[t0:], t0)]
            m = self.merge(fn.args[0], s1, s2, st)
            st.env, st.hf, st.hc = m.env, m.hf, m.hc
            st.pc = m.pc if False else st.pc
            return phi(fn.args[0], a, b)
        if o == "bound":
            recv, q = fn.args
            fi = self.ix.funcs[q]
            if recv.op == "cls":
                return self.call_func(fi, [recv] + args, kws, star, st, node)
            return self.call_method_fi(fi, recv, args, kws, st, node, star)
        if o == "func":
            fi = self.ix.funcs[fn.args[0]]
            return self.call_func(fi, args, kws, star, st, node)
        if o == "cls":
            return self.construct(self.ix.classes[fn.args[0]], args, kws, star, st, node)
        if o == "lam":
            return self.call_closure(fn, args, kws, st, node)
        if o == "attr":
            return self.method_call(fn, args, kws, star, st, node)
        if o == "glob":
            return self.extern(fn, args, kws, star, st, node)
        if o == "super":
            return N("unknown", "super()")
        # unknown callee value
        fa = tuple(self.fz(a, st) for a in args)
        fk = self.star_kws(kws, star, st) if star is not None else tuple(sorted((k, self.fz(v, st)) for k, v in kws.items()))
        r = N("call", self.fz(fn, st), fa, fk)
        self.may_throw(r, st, node)
        self.event_candidate(r, st, node)
        return r

    def may_throw(self, r, st, node):
        if self.throwlog is not None:
            self.throwlog.append(r)

    def event_candidate(self, r, st, node):
        """statement-level calls are recorded by s_Expr"""
        self.last_call = r

    def add_event(self, r, st, node):
        f = self.frame
        self.events.append(Event(r, list(st.pc), f.module.rel, getattr(node, "lineno", 0), f.func.qual if f.func else ""))

    # external function -----------------------------------------------------
    def extern(self, fn, args, kws, star, st, node):
        d = fn.args[0]
        self.calls.append((d, self.frame.module.rel, getattr(node, "lineno", 0), self.frame.func.qual if self.frame.func else ""))
        if d == "builtins.isinstance" and len(args) == 2:
            return self.isinst(args[0], args[1], st)
        if d == "builtins.setattr" and len(args) == 3:
            b, k = args[0], self.fz(args[1], st)
            if k.op == "const":
                self.set_field(b, k.args[0], args[2], st, node)
            else:
                self.record_mut(b, "setattr", st, node)
                self.notes.append(f"attribute set by a computed name at {self.frame.module.rel}:{getattr(node, 'lineno', 0)}")
            return NONE
        if d == "builtins.getattr" and len(args) >= 2 and args[1].op == "const":
            return self.read_attr(args[0], args[1].args[0], st, node)
        if d in ("builtins.iter", "builtins.next"):
            return N("call", fn, tuple(args), ())
        if d in ("tqdm.tqdm",):
            return N("call", fn, (args[0],) if args else (), ())
        if d in ("builtins.enumerate", "builtins.zip", "builtins.range"):
            # keep references: only consumed by loops
            if d == "builtins.range":
                args = [self.fz(a, st) for a in args]
            return N("call", fn, tuple(args), tuple(sorted(kws.items())))
        if d == "builtins.type" and len(args) == 1:
            return N("call", fn, (self.fz(args[0], st),), ())
        if d in ("builtins.any", "builtins.all") and len(args) == 1:
            x = args[0]
            if x.op == "obj":
                x = self.cur(x, st)
            if x.op == "flatmap":
                lid, dom, E, y, sysm = x.args
                c = self._flat_any(self.fz(y, st), d.endswith("any"))
                if c is not None:
                    r = N("exists", lid, dom, E, c, sysm)
                    return r if d.endswith("any") else neg(r)
            return N("truth", N("call", fn, (self.fz(x, st),), ()))
        if d == "builtins.sum" and len(args) == 1:
            x = args[0]
            if x.op == "obj":
                x = self.cur(x, st)
            if x.op == "flatmap":
                x = self.fz(x, st)
                lid, dom, E, y, sysm = x.args
                s = self._flat_sum(y)
                if s is not None:
                    return N("msum", const(0), lid, dom, E, s, sysm)
        if d == "functools.reduce" and len(args) == 3 and not kws and star is None:
            return self.fold(args, st, node)
        if d == "functools.partial":
            return N("call", fn, tuple(self.fz(a, st) for a in args), tuple(sorted((k, self.fz(v, st)) for k, v in kws.items())))
        # effects on arguments
        for k, v in kws.items():
            w = INPLACE_KW.get(k)
            if w == "kw" and v.op != "const" and not (self.typeof(v) and self.typeof(v)[0] == "prim"):
                self.set_state(v, st, lambda old: N("overwritten", old), f"{d}({k}=...)", node)
            elif isinstance(w, int) and v is TRUE and len(args) > w:
                self.set_state(args[w], st, lambda old: N("overwritten", old), f"{d}({k}=True)", node)
            elif k == "copy" and v is FALSE and d == "numpy.nan_to_num" and args:
                self.set_state(args[0], st, lambda old: N("overwritten", old), f"{d}(copy=False)", node)
        for w in INPLACE_FUNCS.get(d, ()):
            if len(args) > w:
                a0 = args[w]
                fz = tuple(self.fz(a, st) for a in args)
                self.set_state(a0, st, lambda old: N("overwritten", old, fz), d, node)
        rargs = args
        fa = tuple(self.fz(a, st) for a in args)
        if star is not None:
            fk = self.star_kws(kws, star, st)
        else:
            fk = tuple(sorted((k, self.fz(v, st)) for k, v in kws.items()))
        if d == "copy.deepcopy" and len(fa) == 1:
            return self.new_obj("copy", N("dc", fa[0]))
        if d == "builtins.dict" and not args and star is None:
            return self.new_obj("dict", N("dict", tuple((const(k), v) for k, v in kws.items())))
        if d == "builtins.dict" and len(args) == 1 and not kws:
            b = self.cur(args[0], st)
            return self.new_obj("dict", N("call", fn, (b,), ()))
        if d in ("builtins.list", "builtins.tuple") and not args:
            return self.new_obj("list", N("list"))
        if d in ("builtins.list", "builtins.tuple", "builtins.sorted", "builtins.set") and len(args) == 1:
            b = self.cur(args[0], st)
            return self.new_obj("list" if d != "builtins.set" else "set", N("call", fn, (b,), fk)) if d != "builtins.set" else self.new_obj("set", N("call", fn, (self.fz(b, st),), fk))
        if d == "builtins.set" and not args:
            return self.new_obj("set", N("setof", N("list")))
        r = N("call", fn, fa, fk)
        self.may_throw(r, st, node)
        if d in EFFECT_FUNCS:
            self.add_event(r, st, node)
        elif not d.startswith(EFFECT_FUNCS_PURE_PREFIX):
            self.event_candidate(r, st, node)
        if d in VIEW_FUNCS:
            # keep the aliasing reference
            r2 = N("call", fn, tuple(rargs[:1]) + fa[1:], fk)
            return r2
        if d in FRESH_FUNCS or d.startswith(("numpy.", "scipy.")):
            if d in FRESH_FUNCS:
                if d == "numpy.array" and any(k == "copy" and v is FALSE for k, v in fk):
                    return N("call", fn, tuple(rargs[:1]) + fa[1:], fk)
                return self.new_obj("arr", r)
        return r

    def star_kws(self, kws, star, st):
        s = self.fz(star, st)
        return tuple(sorted((k, self.fz(v, st)) for k, v in kws.items())) + (("**", s),)

    def _flat_any(self, y, is_any):
        if y.op == "list":
            cs = [self.truth(x) for x in y.args]
            if is_any:
                return disj(cs) if cs else FALSE
            return disj([neg(c) for c in cs]) if cs else FALSE
        if y.op == "phi":
            a, b = self._flat_any(y.args[1], is_any), self._flat_any(y.args[2], is_any)
            if a is None or b is None:
                return None
            return phi(y.args[0], a, b)
        return None

    def _flat_sum(self, y):
        if y.op == "list":
            r = const(0)
            for x in y.args:
                r = N("bin", "+", r, x)
            return r
        if y.op == "phi":
            a, b = self._flat_sum(y.args[1]), self._flat_sum(y.args[2])
            return None if a is None or b is None else phi(y.args[0], a, b)
        return None

    def isinst(self, x, ts, st):
        x = self.fz(x, st)
        tl = ts.args if ts.op in ("tuple", "list") else (ts,)
        if x.op == "iv" and any(t.op == "glob" and t.args[0] == "builtins.int" for t in tl):
            return TRUE
        out = [N("truth", N("isinstance", x, self.fz(t, st))) for t in tl]
        return disj(out)

    # external / unresolved method --------------------------------------------
    def method_call(self, fn, args, kws, star, st, node):
        recv, name = fn.args
        if recv.op == "phi":
            return self.call(phi(recv.args[0], self.read_attr(recv.args[1], name, st, node), self.read_attr(recv.args[2], name, st, node)), args, kws, star, st, node)
        self.calls.append(("." + name, self.frame.module.rel, getattr(node, "lineno", 0), self.frame.func.qual if self.frame.func else ""))
        t = self.typeof(recv)
        c = self.cls_of(t)
        if recv.op == "cls":
            # inherited (pydantic) class methods
            cc = self.ix.classes[recv.args[0]]
            fa = tuple(self.fz(a, st) for a in args)
            fk = tuple(sorted((k, self.fz(v, st)) for k, v in kws.items()))
            if name in ("parse_file", "parse_obj", "parse_raw"):
                r = N("parsed", cc.qual, name, fa, fk)
                self.may_throw(r, st, node)
                o = self.new_obj(cc, r)
                return o
            return N("method", name, recv, fa, fk)
        if c is not None and c.is_model():
            if name == "dict" and not args:
                if not kws and star is None:
                    return self.new_obj("dict", N("dictof", self.fz(recv, st)))
            if name == "copy":
                deep = kws.get("deep")
                upd = kws.get("update")
                if deep is TRUE:
                    base = self.new_obj(c, N("new", c.qual, (), N("dictof", self.fz(recv, st))))
                else:
                    self.nobj += 1
                    base = N("mcopy", recv, self.nobj)
                if upd is not None:
                    s = self.cur(upd, st)
                    ps = s.args[0] if s.op == "dict" else (s.args[1] if s.op == "dupd" else None)
                    if ps is None:
                        return N("unknown", "copy(update)")
                    for k, v in ps:
                        if k.op == "const":
                            st.hf[(base, k.args[0])] = v
                return base
        isarr = t == ("ndarray",)
        if name == "copy" and not args and not kws and (isarr or (t and t[0] in ("list", "dict"))):
            if isarr:
                return self.new_obj("arr", N("dc", self.fz(recv, st)))
            return self.new_obj(t[0], N("call", N("glob", "builtins." + t[0]), (self.cur(recv, st),), ()))
        cs = self.cur(recv, st)
        strish = self.strlike(recv)
        if name == "union" and (cs.op in SETS or t == ("set",)) and not kws and star is None:
            r = self.fz(recv, st)
            for x in args:
                r = N("setupd", r, self.fz(x, st))
            return self.new_obj("set", r)
        if name == "append" and len(args) == 1 and not kws and not (t and t[0] == "ext"):
            x = args[0]
            self.set_state(recv, st, lambda old: N("append", old, x), ".append()", node)
            return NONE
        if name == "insert" and len(args) == 2 and args[0] == const(0) and not kws and (cs.op in ("list", "append", "concat", "flatmap") or t and t[0] == "list"):
            x = args[1]
            self.set_state(recv, st, lambda old: N("concat", N("list", x), old), ".insert()", node)
            return NONE
        if name == "extend" and len(args) == 1 and not (t and t[0] == "ext"):
            x = self.cur(args[0], st)
            x = self.fz(x, st)
            self.set_state(recv, st, lambda old: N("concat", old, x), ".extend()", node)
            return NONE
        if name == "update" and (len(args) == 1 or kws) and ((t and t[0] == "dict") or cs.op in ("dict", "dupd", "dictof", "dflat")):
            if args:
                x = self.cur(args[0], st)
                if x.op == "dict":
                    ps = x.args[0]
                    self.set_state(recv, st, lambda old: _dupd(old, ps), ".update()", node)
                else:
                    x = self.fz(x, st)
                    self.set_state(recv, st, lambda old: N("dmerge", old, x), ".update()", node)
            if kws:
                ps2 = tuple((const(k), v) for k, v in kws.items())
                self.set_state(recv, st, lambda old: _dupd(old, ps2), ".update()", node)
            return NONE
        if name == "pop" and len(args) >= 1 and not (t and t[0] in ("list", "ext")) :
            k = self.fz(args[0], st)
            v = self.fz(self.index(recv, k, st, node), st)
            self.set_state(recv, st, lambda old: _dupd(old, ((k, N("del")),)), ".pop()", node)
            if len(args) == 2:
                dflt = self.fz(args[1], st)
                return N("call", N("glob", "builtins.dictget"), (self.fz(cs, st), k, dflt), ())
            return v
        if name in MUTATORS and not strish and not (t and t[0] == "ext" and ("DataFrame" in t[1] or "Series" in t[1])):
            if not (name in ("update", "add", "put") and c is None and t is None and recv.op not in ("obj",) and not self.roots(recv, st) ):
                fa = tuple(self.fz(a, st) for a in args)
                fk = tuple(sorted((k, self.fz(v, st)) for k, v in kws.items()))
                if (cs.op in SETS or t == ("set",)) and name == "update" and len(fa) == 1 and not fk:
                    self.set_state(recv, st, lambda old: N("setupd", old, fa[0]), ".update()", node)
                    return NONE
                if cs.op == "setof" or name == "add":
                    self.set_state(recv, st, lambda old: N("setadd", old, fa[0]) if name == "add" and fa else N("mutcall", name, old, fa, fk), f".{name}()", node)
                    return NONE
                old0 = self.fz(cs, st)
                self.set_state(recv, st, lambda old: N("mutcall", name, old, fa, fk), f".{name}()", node)
                return N("mutret", name, old0, fa, fk)
        for k, v in kws.items():
            w = INPLACE_KW.get(k)
            if w == "recv" and v is TRUE:
                self.set_state(recv, st, lambda old: N("mutcall", name, old, tuple(self.fz(a, st) for a in args), ()), f".{name}(inplace=True)", node)
                return NONE
            if w == "kw" and v.op != "const" and not (self.typeof(v) and self.typeof(v)[0] == "prim"):
                self.set_state(v, st, lambda old: N("overwritten", old), f".{name}({k}=...)", node)
        fa = tuple(self.fz(a, st) for a in args)
        if star is not None:
            fk = self.star_kws(kws, star, st)
        else:
            fk = tuple(sorted((k, self.fz(v, st)) for k, v in kws.items()))
        if name in ("items", "keys", "values", "__iter__") and not args:
            if recv.op in ("obj", "sym", "attr", "idx", "cv", "elem", "mcopy"):
                return N("method", name, recv, (), ())
        if name in ("joinpath",) and self.pathlike(recv):
            r = self.fz(recv, st)
            for x in fa:
                r = N("path", r, x)
            return r
        r = N("method", name, self.fz(recv, st), fa, fk)
        self.may_throw(r, st, node)
        if name in EFFECT_METHODS or (name == "open" and fa and fa[0].op == "const" and any(ch in str(fa[0].args[0]) for ch in "wax+")):
            self.add_event(r, st, node)
        else:
            self.event_candidate(r, st, node)
        if name in VIEW_METHODS:
            return N("method", name, recv, fa, fk)
        return r

    # repo function ---------------------------------------------------------
    def bindargs(self, fi, args, kws, star, st):
        env = {}
        ps = list(fi.params)
        extra = []
        for k, a in enumerate(args):
            if k < len(ps):
                env[ps[k]] = a
            else:
                extra.append(a)
        for k, v in kws.items():
            if k in ps or k in fi.kwonly:
                env[k] = v
            elif fi.kwarg:
                pass
            else:
                return None
        if star is not None:
            for p in ps + fi.kwonly:
                if p not in env:
                    s = self.cur(star, st)
                    v = self._star_get(s, p)
                    env[p] = v if v is not None else N("stararg", self.fz(star, st), p)
        for p in ps + fi.kwonly:
            if p not in env:
                if p in fi.defaults:
                    env[p] = ("default", fi.defaults[p])
                else:
                    return None
        if fi.vararg:
            env[fi.vararg] = N("tuple", *extra)
        elif extra:
            return None
        if fi.kwarg:
            env[fi.kwarg] = self.new_obj("dict", N("dict", tuple((const(k), v) for k, v in kws.items() if k not in ps and k not in fi.kwonly)))
        return env

    def call_method_fi(self, fi, recv, args, kws, st, node, star=None):
        # dynamic dispatch on the receiver's type
        if fi.kind == "static":
            return self.call_func(fi, args, kws, star, st, node)
        t = self.typeof(recv)
        c = self.cls_of(t)
        exact = recv.op == "obj" or (recv.op == "sym" and recv.args[0] == "self") or recv.op == "new"
        if c is not None and not exact:
            name = fi.node.name
            over = [s for s in c.all_subs() if name in s.methods]
            if over:
                return self.opaque_call(N("vfunc", fi.qual), fi, [recv] + args, kws, star, st, node)
        if fi.qual.replace("resistics.", "", 1) in self.virtual or self.abstract(fi):
            return self.opaque_call(N("vfunc", fi.qual), fi, [recv] + args, kws, star, st, node)
        if c is not None and not exact and fi.node.name == "run" and c.is_sub("ResisticsProcess"):
            return self.opaque_call(N("vfunc", fi.qual), fi, [recv] + args, kws, star, st, node)
        return self.call_func(fi, [recv] + args, kws, star, st, node)

    def abstract(self, fi):
        body = [x for x in fi.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        if len(body) != 1 or not isinstance(body[0], ast.Raise) or body[0].exc is None:
            return False
        e = body[0].exc
        e = e.func if isinstance(e, ast.Call) else e
        return isinstance(e, ast.Name) and e.id == "NotImplementedError" and fi.cls is not None and any(fi.node.name in s.methods for s in fi.cls.all_subs())

    def opaque_call(self, fnode, fi, args, kws, star, st, node):
        env = self.bindargs(fi, args, kws, star, st)
        if env is None:
            r = N("call", fnode, tuple(self.fz(a, st) for a in args), tuple(sorted((k, self.fz(v, st)) for k, v in kws.items())))
        else:
            out = []
            for p in fi.params + fi.kwonly:
                v = env[p]
                if isinstance(v, tuple):
                    v = self.default(fi, p)
                out.append((p, self.fz(v, st)))
            r = N("call", fnode, (), tuple(out))
        self.calls.append((fi.qual, self.frame.module.rel, getattr(node, "lineno", 0), self.frame.func.qual if self.frame.func else ""))
        self.may_throw(r, st, node)
        self.event_candidate(r, st, node)
        if env is not None and fnode.op == "func":
            p = self.hands_back(fi)
            if p is not None and not isinstance(env[p], tuple):
                self.add_event(r, st, node)
                return env[p]
        return r

    def hands_back(self, fi):
        """the parameter the function always returns (having filled it)"""
        if not hasattr(fi, "_hands_back"):
            body = list(ast.walk(fi.node))
            rets = [x for x in body if isinstance(x, ast.Return)]
            names = {x.value.id if isinstance(x.value, ast.Name) else None for x in rets}
            fi._hands_back = None
            if len(names) == 1 and isinstance(fi.node.body[-1], ast.Return) and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda)) for x in body[1:]):
                p = names.pop()
                of = lambda x: isinstance(x, ast.Name) and x.id == p
                if p in fi.params + fi.kwonly and not any(of(x) and not isinstance(x.ctx, ast.Load) for x in body) and \
                        any(isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load) and (of(x.value) or isinstance(x.value, ast.Subscript) and of(x.value.value)) for x in body):
                    fi._hands_back = p
        return fi._hands_back

    def default(self, fi, p):
        old = self.frame
        self.frame = Frame(None, fi.module, None, None)
        s = State()
        v = self.fz(self.ev(fi.defaults[p], s), s)
        self.frame = old
        return v

    def call_func(self, fi, args, kws, star, st, node):
        if self.opaque(fi) or len(self.stack) >= self.max_depth or sum(1 for s in self.stack if s[0] == fi.qual) >= 1:
            return self.opaque_call(N("func", fi.qual), fi, args, kws, star, st, node)
        selfn = args[0] if (fi.cls is not None and fi.kind in ("method", "prop", "class") and args) else None
        return self.invoke(fi, selfn, args, kws, st, node, star, full=True)

    def invoke(self, fi, selfn, args, kws, st, node, star=None, full=False):
        if not full:
            args = [selfn] + list(args)
        if fi.kind == "prop" and self.opaque(fi):
            return N("attr", selfn, fi.node.name)
        env = self.bindargs(fi, args, kws, star, st)
        if env is None:
            return N("call", N("func", fi.qual), tuple(self.fz(a, st) for a in args), tuple(sorted((k, self.fz(v, st)) for k, v in kws.items())))
        for p, v in list(env.items()):
            if isinstance(v, tuple):
                env[p] = self.default(fi, p)
            t = self.ix.type_of_ann(fi.ann.get(p), fi.module)
            if t is not None and env[p].op in ("attr", "idx", "call", "method", "elem", "cv") and self.typeof(env[p]) is None:
                self.types[env[p]] = t
        self.calls.append((fi.qual, self.frame.module.rel if self.frame.module else "", getattr(node, "lineno", 0), self.frame.func.qual if self.frame.func else ""))
        fr = Frame(fi, fi.module, selfn, fi.cls)
        old = self.frame
        self.stack.append((fi.qual, old.module.rel if old.module else "", getattr(node, "lineno", 0)))
        self.frame = fr
        s = State()
        s.env = env
        s.hf, s.hc = dict(st.hf), dict(st.hc)
        s.pc = list(st.pc)
        base = len(st.pc)
        end = self.block(fi.node.body, s)
        if end is not None:
            fr.outcomes.append((end.pc, "ret", NONE, end))
        self.frame = old
        self.stack.pop()
        rets = [o for o in fr.outcomes if o[1] == "ret"]
        raises = [o for o in fr.outcomes if o[1] == "raise"]
        for pc, k, v, s2 in raises:
            self.frame.outcomes.append((pc, "raise", v, s2))
        if not rets:
            st.pc.append(FALSE)
            return N("raise", "*")
        # heap after the call: merge over returning paths
        val, ms = rets[-1][2], rets[-1][3]
        hf, hc = dict(ms.hf), dict(ms.hc)
        for pc, k, v, s2 in reversed(rets[:-1]):
            c = conj(pc[base:])
            val = phi(c, v, val)
            hf = self.merge_maps(c, s2.hf, hf, lambda key: self.dflt_f(key, st))
            hc = self.merge_maps(c, s2.hc, hc, lambda key: self.contents(key, st))
        st.hf, st.hc = hf, hc
        if raises:
            st.pc.append(neg(disj([conj(o[0][base:]) for o in raises])))
        self.last_call = None
        return val

    def dflt_f(self, key, st):
        return st.hf.get(key) or self._attr_default(key)

    def _attr_default(self, key):
        b, a = key
        if b.op == "obj":
            kind, init = self.objs[b]
            if init is not None and init.op == "new":
                for k, v in init.args[1]:
                    if k == a:
                        return v
        return N("attr", b, a)

    def merge_maps(self, c, m1, m2, dflt):
        out = {}
        for k in list(m1) + [k for k in m2 if k not in m1]:
            a = m1.get(k)
            b = m2.get(k)
            if a is None:
                a = dflt(k)
            if b is None:
                b = dflt(k)
            out[k] = phi(c, a, b)
        return out

    def call_closure(self, fn, args, kws, st, node):
        e, env, frame = self.closures[fn]
        if self.frame is frame and node is not e:
            env = {**env, **st.env}        # names are looked up when it is called
        if isinstance(e, ast.Lambda):
            ps = [a.arg for a in e.args.args]
            s = st.copy()
            s.env = dict(env)
            for p, d in zip(reversed(ps), reversed(e.args.defaults)):
                s.env[p] = self.ev(d, s)
            for p, a in zip(ps, args):
                s.env[p] = a
            s.env.update(kws)
            old = self.frame
            self.frame = frame
            v = self.ev(e.body, s)
            self.frame = old
            st.hf, st.hc = s.hf, s.hc
            return v
        # nested def
        fi = Func("<local>." + e.name, frame.module, frame.cls, e, "func")
        if sum(1 for s in self.stack if s[0] == fi.qual) >= 1:
            return N("unknown", "recursion")
        saved = st.env
        b = self.bindargs(fi, args, kws, None, st)
        if b is None:
            return N("unknown", "closure args")
        for p, v in list(b.items()):
            if isinstance(v, tuple):
                b[p] = self.default(fi, p)
        for k, v in env.items():
            b.setdefault(k, v)
        fr = Frame(fi, frame.module, frame.selfnode, frame.cls)
        old = self.frame
        self.stack.append((fi.qual, old.module.rel, getattr(node, "lineno", 0)))
        self.frame = fr
        s = State()
        s.env = b
        s.hf, s.hc, s.pc = dict(st.hf), dict(st.hc), list(st.pc)
        base = len(st.pc)
        end = self.block(e.body, s)
        if end is not None:
            fr.outcomes.append((end.pc, "ret", NONE, end))
        self.frame = old
        self.stack.pop()
        rets = [o for o in fr.outcomes if o[1] == "ret"]
        raises = [o for o in fr.outcomes if o[1] == "raise"]
        for o in raises:
            self.frame.outcomes.append(o)
        if not rets:
            st.pc.append(FALSE)
            return N("raise", "*")
        val, ms = rets[-1][2], rets[-1][3]
        hf, hc = dict(ms.hf), dict(ms.hc)
        for pc, k, v, s2 in reversed(rets[:-1]):
            c = conj(pc[base:])
            val = phi(c, v, val)
            hf = self.merge_maps(c, s2.hf, hf, lambda key: self.dflt_f(key, st))
            hc = self.merge_maps(c, s2.hc, hc, lambda key: self.contents(key, st))
        st.hf, st.hc = hf, hc
        if raises:
            st.pc.append(neg(disj([conj(o[0][base:]) for o in raises])))
        return val

    # constructors ------------------------------------------------------------
    def construct(self, c, args, kws, star, st, node):
        self.calls.append((c.qual, self.frame.module.rel, getattr(node, "lineno", 0), self.frame.func.qual if self.frame.func else ""))
        if c.is_model():
            s = NONE
            if star is not None:
                s = self.cur(star, st)
            n = N("new", c.qual, tuple(sorted(kws.items())), s)
            self.may_throw(N("call", N("cls", c.qual), (), tuple(sorted((k, self.fz(v, st)) for k, v in kws.items()))), st, node)
            return self.new_obj(c, n)
        if any(b.endswith("Exception") or b.endswith("Error") for b in c.ext_bases()):
            return N("exc", c.qual)
        init = c.find("__init__")
        o = self.new_obj(c, None)
        if init is None:
            return self.new_obj(c, N("new", c.qual, tuple(sorted((k, v) for k, v in kws.items())), NONE))
        nm = len(self.muts)
        self.call_func_init(init, o, args, kws, star, st, node)
        return o

    def call_func_init(self, init, o, args, kws, star, st, node):
        return self.invoke(init, o, [o] + args, kws, st, node, star, full=True)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                self.notes.append(f"unsupported statement {type(s).__name__} at {self.frame.module.rel}:{s.lineno}")
                continue
            st = m(s, st)
            if st is not None and FALSE in st.pc:
                return None
        return st

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            v = self.val(s.value.value, st) if s.value.value is not None else NONE
            self.add_event(N("yield", v), st, s)
            return st
        self.last_call = None
        n0 = len(self.events)
        v = self.ev(s.value, st)
        if isinstance(s.value, ast.Call) and self.last_call is not None and len(self.events) == n0:
            r = self.last_call
            ok = True
            if r.op == "call" and r.args[0].op == "glob" and r.args[0].args[0].startswith(EFFECT_FUNCS_PURE_PREFIX):
                ok = False
            if ok:
                self.add_event(r, st, s)
        return st

    def s_Pass(self, s, st):
        return st

    def s_Global(self, s, st):
        return st

    s_Nonlocal = s_Global

    def s_Import(self, s, st):
        for k, d in import_map(s, self.frame.module.name).items():
            st.env[k] = self.of_resolved(self.ix.resolve_dotted(d), st)
        return st

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, st):
        n = self.closure(s, st)
        st.env[s.name] = n
        self.closures[n][1][s.name] = n
        return st

    def s_ClassDef(self, s, st):
        st.env[s.name] = N("unknown", "localclass")
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.bind(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            t = self.ix.type_of_ann(s.annotation, self.frame.module)
            if t is not None and v.op in ("obj", "attr", "idx", "call", "method") and (self.typeof(v) is None or self.typeof(v)[1:] in ((None,), (None, None))):
                self.types[v] = t
            self.bind(s.target, v, st, s)
        return st

    def s_AugAssign(self, s, st):
        opn = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.name(s.target.id, st, s)
            v = self.val(s.value, st)
            t = self.typeof(cur)
            c0 = self.fz(cur, st)
            if t and t[0] == "list" and opn == "Add":
                self.set_state(cur, st, lambda old: N("concat", old, v), "+=", s)
                return st
            if t == ("set",) and opn == "BitOr" and cur.op == "obj":
                self.set_state(cur, st, lambda old: N("setupd", old, v), "|=", s)
                return st
            nv = self.binop(opn, c0, v)
            if cur.op in ("obj",) and t == ("ndarray",) or (cur.op in ("sym", "attr", "idx", "call", "method", "phi") and not self.scalar(cur)):
                self.inplace(cur, nv, opn, st, s)
            else:
                st.env[s.target.id] = nv
            return st
        if isinstance(s.target, ast.Attribute):
            b = self.ev(s.target.value, st)
            c0 = self.fz(self.read_attr(b, s.target.attr, st, s), st)
            self.set_field(b, s.target.attr, self.binop(opn, c0, self.val(s.value, st)), st, s)
            return st
        if isinstance(s.target, ast.Subscript):
            b = self.ev(s.target.value, st)
            i = self.ev_index(s.target.slice, st)
            c0 = self.fz(self.index(b, i, st, s), st)
            self.setitem(b, i, self.binop(opn, c0, self.val(s.value, st)), st, s)
        return st

    def scalar(self, n):
        t = self.typeof(n)
        if t is None:
            return False
        if t[0] in ("prim", "none"):
            return True
        if t[0] == "ext" and ("date" in t[1] or "time" in t[1] or "Timestamp" in t[1] or "Timedelta" in t[1] or "Path" in t[1]):
            return True
        if t[0] == "union":
            return all(x and (x[0] == "prim" or (x[0] == "ext" and ("time" in x[1].lower()))) for x in t[1])
        return False

    def inplace(self, cur, nv, opn, st, s):
        """x op= v where x may be an array shared with a caller"""
        t = self.typeof(cur)
        r = self.roots(cur, st)
        if t is None and not (cur.op in ("sym", "attr", "idx") and r):
            st.env[s.target.id] = nv
            return
        if t is None:
            # unknown type rooted in a parameter: only arrays/lists alias; treat
            # a plain value read as a rebinding unless it is known array storage
            if not self.arrayish(cur):
                st.env[s.target.id] = nv
                return
        self.record_mut(cur, f"in-place {opn}", st, s)
        if cur.op in ("obj", "sym", "attr", "idx"):
            st.hc[cur] = nv
        else:
            st.env[s.target.id] = nv

    def arrayish(self, n):
        t = self.typeof(n)
        if t == ("ndarray",):
            return True
        if n.op == "idx":
            return self.arrayish(n.args[0]) and contains(n.args[1], lambda x: x.op == "slice")
        if n.op == "phi":
            return self.arrayish(n.args[1]) or self.arrayish(n.args[2])
        return False

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                i = self.ev_index(t.slice, st)
                self.set_state(b, st, lambda old: _dupd(old, ((i, N("del")),)), "del item", s)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                self.record_mut(b, "del attribute", st, s)
        return st

    def s_Assert(self, s, st):
        c = self.truth(self.val(s.test, st))
        if c is TRUE:
            return st
        bad = st.copy()
        bad.pc.append(neg(c))
        self.frame.outcomes.append((bad.pc, "raise", N("raise", "AssertionError"), bad))
        st.pc.append(c)
        return st

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        self.frame.outcomes.append((list(st.pc), "ret", v, st))
        return None

    def s_Raise(self, s, st):
        if s.exc is None:
            name = "reraise"
        else:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            n = self.ev(e, st) if not isinstance(s.exc, ast.Call) or True else None
            if n.op == "cls":
                name = n.args[0].split(".")[-1]
            elif n.op == "glob":
                name = n.args[0].split(".")[-1]
            elif n.op == "exc":
                name = n.args[0].split(".")[-1]
            else:
                name = "?"
        self.frame.outcomes.append((list(st.pc), "raise", N("raise", name), st))
        return None

    def s_If(self, s, st):
        c = self.truth(self.val(s.test, st))
        if c is TRUE:
            return self.block(s.body, st)
        if c is FALSE:
            return self.block(s.orelse, st)
        a, b = st.copy(), st.copy()
        a.pc.append(c)
        b.pc.append(neg(c))
        ra = self.block(s.body, a)
        rb = self.block(s.orelse, b)
        if ra is None and rb is None:
            return None
        if ra is None:
            return rb
        if rb is None:
            return ra
        return self.merge(c, ra, rb, st)

    def merge(self, c, a, b, base):
        out = State()
        nb = len(base.pc)
        ea, eb = a.pc[nb:], b.pc[nb:]
        out.pc = list(base.pc)
        if len(ea) > 1 or len(eb) > 1:
            out.pc.append(N("or", conj(ea), conj(eb)))
        for k in a.env:
            if k in b.env:
                out.env[k] = phi(c, a.env[k], b.env[k])
            else:
                out.env[k] = phi(c, a.env[k], N("undef", k))
        for k in b.env:
            if k not in a.env:
                out.env[k] = phi(c, N("undef", k), b.env[k])
        out.hf = self.merge_maps(c, a.hf, b.hf, lambda key: self.dflt_f(key, base))
        out.hc = self.merge_maps(c, a.hc, b.hc, lambda key: self.contents(key, base))
        return out

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.bind(it.optional_vars, v, st, s)
        return self.block(s.body, st)

    def s_Continue(self, s, st):
        self.frame.loops[-1].conts.append(st)
        return None

    def s_Break(self, s, st):
        self.frame.loops[-1].breaks.append(st)
        return None

    # try ---------------------------------------------------------------------
    EXC_PARENTS = {
        "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "ValueError": "Exception",
        "FileNotFoundError": "OSError", "NotADirectoryError": "OSError", "OSError": "Exception", "TypeError": "Exception",
        "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "AttributeError": "Exception",
        "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "AssertionError": "Exception",
        "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
    }

    def exc_matches(self, raised, handler):
        if handler in ("Exception", "BaseException", "*"):
            return True
        x = raised
        for _ in range(10):
            if x == handler:
                return True
            if x in self.EXC_PARENTS:
                x = self.EXC_PARENTS[x]
                continue
            c = None
            for q, ci in self.ix.classes.items():
                if ci.name == x:
                    c = ci
                    break
            if c is None:
                return False
            b = c.bases[0] if c.bases else None
            x = b.name if isinstance(b, ClassInfo) else (b.split(".")[-1] if b else "")
        return False

    def s_Try(self, s, st):
        base = st.copy()
        nb = len(base.pc)
        oldlog = self.throwlog
        self.throwlog = []
        n_out = len(self.frame.outcomes)
        jumps = [(l, len(ctx.breaks), len(ctx.conts)) for l, ctx in enumerate(self.frame.loops)]
        body = st.copy()
        rbody = self.block(s.body, body)
        log = []
        for r in self.throwlog:
            if r not in log:
                log.append(r)
        self.throwlog = oldlog
        if oldlog is not None:
            oldlog.extend(log)
        new = self.frame.outcomes[n_out:]
        del self.frame.outcomes[n_out:]
        keep, caught = [], []
        for o in new:
            if o[1] == "raise":
                caught.append(o)
            else:
                keep.append(o)
        remaining = caught
        handlers = []
        prior = []
        hnames, hmine = [], []
        for h in s.handlers:
            if h.type is None:
                names = ["*"]
            else:
                tl = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                names = [(dotted(t) or "?").split(".")[-1] for t in tl]
            mine, rest = [], []
            for o in remaining:
                (mine if any(self.exc_matches(o[2].args[0], nm) for nm in names) else rest).append(o)
            remaining = rest
            hnames += [nm for nm in names if nm not in hnames]
            hmine += mine
            conds = [conj(o[0][nb:]) for o in mine]
            if log:
                conds.append(N("throws", tuple(log), tuple(sorted(names))))
            c = disj(conds)
            if prior:
                c = N("and", neg(disj(prior)), c)
            handlers.append((h, c))
            prior = prior + [c]
        anyc = FALSE
        if prior:
            top = [nm for nm in hnames if not any(o != nm and self.exc_matches(nm, o) and not (self.exc_matches(o, nm) and hnames.index(o) > hnames.index(nm)) for o in hnames)]
            anyc = disj([conj(o[0][nb:]) for o in hmine] + ([N("throws", tuple(log), tuple(sorted(top)))] if log else []))
        if anyc is not FALSE:
            for l, i, j in jumps:
                ctx = self.frame.loops[l]
                for x in ctx.breaks[i:] + ctx.conts[j:]:
                    x.pc.append(neg(anyc))
        # normal completion
        results = []
        for o in keep:
            pc = list(o[0])
            if anyc is not FALSE:
                pc.append(neg(anyc))
            self.frame.outcomes.append((pc, o[1], o[2], o[3]))
        for o in remaining:
            self.frame.outcomes.append(o)
        if rbody is not None:
            if anyc is not FALSE:
                rbody.pc.append(neg(anyc))
            rbody = self.block(s.orelse, rbody)
        if rbody is not None:
            results.append((neg(anyc), rbody))
        rbody0 = rbody
        every = True
        for h, c in handlers:
            if c is FALSE:
                continue
            hs = base.copy()
            hs.pc.append(c)
            if h.name:
                hs.env[h.name] = N("excval", c)
            r = self.block(h.body, hs)
            if r is not None:
                results.append((c, r))
                every = every and r.pc[nb:] == [c]
            else:
                every = False
        if not results:
            out = None
        else:
            c0, out = results[-1]
            for c, r in reversed(results[:-1]):
                out = self.merge(c, r, out, base)
            # what did not complete cannot be here
            if every:
                conds = disj([conj(r.pc[nb:]) for c, r in results if r is rbody0] + [anyc])
            else:
                conds = disj([conj(r.pc[nb:]) for c, r in results])
            out.pc = out.pc[:nb] + ([conds] if conds is not TRUE else [])
        if out is not None and s.finalbody:
            out = self.block(s.finalbody, out)
        return out

    # loops -------------------------------------------------------------------
    def literal_items(self, it, st):
        """the elements of a collection written out in the source"""
        x = self.cur(it, st) if it.op == "obj" else it
        if x.op in ("list", "tuple") and not any(y.op in ("spread", "starred") for y in x.args):
            return list(x.args)
        if x.op == "method" and x.args[0] in ("items", "keys", "values") and not x.args[2]:
            d = self.cur(x.args[1], st) if x.args[1].op == "obj" else x.args[1]
            if d.op == "dict" and all(k.op == "const" for k, v in d.args[0]) and len({k for k, v in d.args[0]}) == len(d.args[0]):
                return [N("tuple", k, v) if x.args[0] == "items" else k if x.args[0] == "keys" else v for k, v in d.args[0]]
        if x.op == "call" and x.args[0].op == "glob" and not x.args[2] and x.args[0].args[0] in ("builtins.enumerate", "builtins.zip") and x.args[1]:
            ys = [self.literal_items(y, st) for y in x.args[1]]
            if any(y is None for y in ys) or x.args[0].args[0] == "builtins.enumerate" and len(ys) != 1:
                return None
            if x.args[0].args[0] == "builtins.enumerate":
                ys = [[const(i) for i in range(len(ys[0]))]] + ys
            return [N("tuple", *z) for z in zip(*ys)]
        return None

    def written_out(self, e, st):
        """the elements a comprehension over a collection written out in the source has"""
        if not isinstance(e, (ast.ListComp, ast.GeneratorExp)) or len(e.generators) != 1 or e.generators[0].ifs:
            return None
        g = e.generators[0]
        xs = self.literal_items(self.ev(g.iter, st), st)
        if xs is None or len(xs) > 6:
            return None
        env, out = dict(st.env), []
        for x in xs:
            self.bind(g.target, x, st, g)
            out.append(self.ev(e.elt, st))
        st.env = env
        return N("tuple", *out)

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        xs = None if s.orelse else self.literal_items(it, st)
        if xs is not None and len(xs) <= 6 and not any(isinstance(x, (ast.Break, ast.Continue)) for b in s.body for x in ast.walk(b)):
            for x in xs:
                self.bind(s.target, x, st, s)
                st = self.block(s.body, st)
                if st is None:
                    return None
            return st
        lid, dom, tv = self.domain(it, st, s)
        return self.loop(s, st, lid, dom, tv, None)

    def s_While(self, s, st):
        self.nlid += 1
        lid = self.nlid
        self.loopinfo[lid] = {"init": {}, "next": {}, "source": None, "etype": None, "nobj0": self.nobj}
        return self.loop(s, st, lid, N("dom", const("w"), NONE), None, s.test)

    def loop(self, s, st, lid, dom, tv, test):
        info = self.loopinfo[lid]
        names = []
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in names:
                    names.append(x.id)
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    pass
        tnames = [x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)] if tv is not None else []
        pre = st.copy()
        # keys: ("n", name) | ("f", (base, attr)) | ("c", base)
        carried = [("n", n) for n in names if n in st.env and n not in tnames]
        heapk = []
        ev0, mu0, cl0, nt0 = len(self.events), len(self.muts), len(self.calls), len(self.notes)
        out0 = len(self.frame.outcomes)
        thr0 = len(self.throwlog) if self.throwlog is not None else 0
        nlid0, nobj0, types0 = self.nlid, self.nobj, dict(self.types)
        for attempt in range(12):
            self.nlid, self.nobj, self.types = nlid0, nobj0, dict(types0)
            del self.events[ev0:]
            del self.muts[mu0:]
            del self.calls[cl0:]
            del self.notes[nt0:]
            del self.frame.outcomes[out0:]
            if self.throwlog is not None:
                del self.throwlog[thr0:]
            keys = carried + heapk
            info["init"], info["next"] = {}, {}
            b = pre.copy()
            for k, key in enumerate(keys):
                ph = N("cv", lid, k)
                if key[0] == "n":
                    info["init"][k] = pre.env[key[1]]
                    b.env[key[1]] = ph
                elif key[0] == "f":
                    iv = pre.hf.get(key[1]) or self._attr_default(key[1])
                    info["init"][k] = iv
                    b.hf[key[1]] = ph
                else:
                    info["init"][k] = self.cur(key[1], pre)
                    b.hc[key[1]] = ph
                self.types.pop(ph, None)
                tt = self.typeof(info["init"][k])
                if tt is not None:
                    self.types[ph] = tt
            start = b.copy()
            nb = len(b.pc)
            ctx = LoopCtx()
            self.frame.loops.append(ctx)
            if tv is not None:
                self.bind(s.target, tv, b, s)
                E0 = None
            else:
                c = self.truth(self.val(test, b))
                E0 = c
                if c is not TRUE:
                    b.pc.append(c)
            end = self.block(s.body, b)
            self.frame.loops.pop()
            ends = list(ctx.conts)
            if end is not None:
                ends.append(end)
            newk = []
            for e_ in ends + ctx.breaks + [o[3] for o in self.frame.outcomes[out0:]]:
                self.fold_elems(e_, lid)
            for e_ in ends + ctx.breaks:
                for k in e_.hf:
                    if e_.hf[k] is not start.hf.get(k) and ("f", k) not in heapk and ("f", k) not in newk and self.outer(k[0], pre, lid):
                        newk.append(("f", k))
                for k in e_.hc:
                    if e_.hc[k] is not start.hc.get(k) and ("c", k) not in heapk and ("c", k) not in newk and self.outer(k, pre, lid):
                        newk.append(("c", k))
            if not newk:
                break
            heapk += newk
        else:
            self.notes.append(f"loop heap did not converge at {self.frame.module.rel}:{s.lineno}")
            heapk = heapk[:len(info["init"]) - len(carried)]
        keys = carried + heapk
        # normal end state merged
        def getv(e_, key):
            if key[0] == "n":
                return e_.env.get(key[1], N("undef", key[1]))
            if key[0] == "f":
                return e_.hf.get(key[1]) or self._attr_default(key[1])
            return e_.hc.get(key[1]) or self.cur(key[1], e_)

        def fzin(v, e_):
            return self.fz_loop(v, e_, keys, pre)

        alln = ends + ctx.breaks
        E = disj([conj(e_.pc[nb:]) for e_ in ctx.breaks])
        nexts = {}
        extra_names = [n for n in names if n not in st.env] + [n for n in tnames]
        extra = {}
        for k, key in list(enumerate(keys)) + [(("x", n), ("n", n)) for n in extra_names]:
            v = None
            for e_ in reversed(alln):
                x = getv(e_, key)
                x = fzin(x, e_)
                v = x if v is None else phi(conj(e_.pc[nb:]), x, v)
            if v is None:
                v = N("cv", lid, k) if isinstance(k, int) else N("undef", key[1])
            if isinstance(k, int):
                nexts[k] = v
            else:
                extra[key[1]] = v
        info["next"] = nexts
        # early exits
        new = self.frame.outcomes[out0:]
        del self.frame.outcomes[out0:]
        exits = []
        for pc, kind, v, s2 in new:
            exits.append((conj(pc[nb:]), kind, v, s2))
        stopE = disj([E] + [c for c, k, v, s2 in exits]) if exits else E
        if E0 is not None and E0 is not TRUE:
            dom = N("dom", const("w"), E0)
        elif tv is None:
            dom = N("dom", const("w"), TRUE)
        inits = {k: self.fz(info["init"][k], pre) for k in info["init"]}

        def system(*terms):
            """carried variables reachable from the given terms"""
            need, work = [], list(terms)
            while work:
                t = work.pop()
                for x in walk(t):
                    if x.op == "cv" and x.args[0] == lid and x.args[1] not in need and x.args[1] in nexts:
                        need.append(x.args[1])
                        work.append(nexts[x.args[1]])
            need.sort()
            return tuple((k, inits[k], nexts[k]) for k in need)

        after = pre.copy()
        elid = lid
        # early exit outcomes
        alive = []
        for c, kind, v, s2 in exits:
            vv = fzin(v, s2) if kind == "ret" else v
            sysm = system(c, vv, stopE, dom)
            ex = N("exists", lid, dom, stopE, c, sysm)
            pc = list(pre.pc) + [ex]
            if kind == "ret":
                fv = vv if not self.dependson(vv, lid) else N("first", lid, dom, stopE, c, vv, sysm)
                # keep class type for later attribute reads
                tt = self.typeof(vv)
                if tt is not None:
                    self.types[fv] = tt
                self.frame.outcomes.append((pc, "ret", fv, self.loop_exit_state(pre, s2, keys, lid, dom, stopE, nexts, inits, system)))
            else:
                self.frame.outcomes.append((pc, "raise", v, pre.copy()))
            alive.append(ex)
        for ex in alive:
            after.pc.append(neg(ex))
        E = stopE
        for k, key in enumerate(keys):
            v = self.loop_out(k, inits[k], nexts[k], lid, dom, E, system, info)
            raw_init = info["init"][k]
            if v is inits[k]:
                v = raw_init
            tt = self.typeof(raw_init)
            if tt is not None and v.op not in ("obj", "const"):
                self.types.setdefault(v, tt)
            if key[0] == "n":
                after.env[key[1]] = v
            elif key[0] == "f":
                after.hf[key[1]] = v
            else:
                after.hc[key[1]] = v
        for n, v in extra.items():
            if not self.dependson(v, lid):
                after.env[n] = v if True else v
            else:
                sysm = system(v, E, dom)
                r = N("lout", N("undef", ""), lid, dom, E, v, sysm)
                after.env[n] = r
        # events and mutations inside the loop
        for e_ in self.events[ev0:]:
            rel = conj(e_.pc[nb:])
            sysm = system(rel, e_.node, E, dom)
            e_.node = N("evmap", lid, dom, E, rel, e_.node, sysm)
            e_.pc = list(pre.pc)
        for m in self.muts[mu0:]:
            m.pc = list(pre.pc)
        if s.orelse:
            r = self.block(s.orelse, after)
            return r
        return after

    def loop_exit_state(self, pre, s2, keys, lid, dom, E, nexts, inits, system):
        r = pre.copy()
        info = self.loopinfo[lid]
        for k, key in enumerate(keys):
            v = self.loop_out(k, inits[k], nexts[k], lid, dom, E, system, info)
            if key[0] == "f":
                r.hf[key[1]] = v
            elif key[0] == "c":
                r.hc[key[1]] = v
        return r

    def dependson(self, v, lid):
        return contains(v, lambda x: x.op in ("iv", "elem", "cv") and x.args[0] == lid)

    def outer(self, base, pre, lid):
        """does this heap location outlive one loop iteration?"""
        b = base
        while b.op in ("attr", "idx"):
            if b.op == "idx" and self.dependson(b.args[1], lid):
                return False if self.dependson(b.args[0], lid) else True
            b = b.args[0]
        if b.op == "obj":
            return b.args[0] <= self.loopinfo[lid]["nobj0"]
        if b.op == "mcopy":
            return b.args[1] <= self.loopinfo[lid]["nobj0"]
        return not self.dependson(b, lid)

    def fold_elems(self, e_, lid):
        """Stores below X[i] with i varying in this loop become stores to X."""
        groups = {}
        for key, isf in [(k, True) for k in e_.hf] + [(k, False) for k in e_.hc]:
            b = key[0] if isf else key
            top = None
            while b.op in ("attr", "idx"):
                if b.op == "idx" and self.dependson(b.args[1], lid) and not self.dependson(b.args[0], lid):
                    top = b
                b = b.args[0]
            if top is not None:
                groups.setdefault(top, []).append((key, isf))
        for top, ks in groups.items():
            v = self.fz(top, e_)
            for key, isf in ks:
                if isf:
                    del e_.hf[key]
                else:
                    del e_.hc[key]
            X, i = top.args
            t = self.typeof(X)
            old = self.cur(X, e_)
            if (t and t[0] == "dict") or old.op in ("dict", "dupd", "dictof", "dflat"):
                e_.hc[X] = _dupd(old, ((i, v),))
            else:
                e_.hc[X] = N("aset", old, i, v)

    def fz_loop(self, v, e_, keys, pre):
        # heap locations carried by the loop are represented by their placeholders
        return self.fz(v, e_)

    def loop_out(self, k, init, nxt, lid, dom, E, system, info):
        ph = N("cv", lid, k)
        if nxt is ph:
            return init
        if not self.dependson_cv(nxt, lid) and not self.dependson(nxt, lid):
            # loop-invariant reassignment
            return N("lout", init, lid, dom, E, nxt, system(nxt, E, dom))
        has = lambda t: contains(t, lambda x: x is ph)
        # list building
        y = _strip_list(nxt, ph)
        if y is not None and not has(y):
            fm = N("flatmap", lid, dom, E, y, system(y, E, dom))
            if init.op == "list" and not init.args:
                return fm
            return N("concat", init, fm)
        y = _strip_set(nxt, ph)
        if y is not None and not has(y):
            return N("setupd", init, N("flatmap", lid, dom, E, y, system(y, E, dom)))
        y = _strip_dict(nxt, ph)
        if y is not None and not has(y):
            return N("dflat", init, lid, dom, E, y, system(y, E, dom))
        y = _strip_arr(nxt, ph)
        if y is not None and not has(y):
            return N("aflat", init, lid, dom, E, y, system(y, E, dom))
        y = _strip_sum(nxt, ph)
        if y is not None and not has(y):
            return N("msum", init, lid, dom, E, y, system(y, E, dom))
        y = _strip_cat(nxt, ph)
        if y is not None and not has(y):
            return N("cat", init, N("mcat", lid, dom, E, y, system(y, E, dom)))
        return N("lout", init, lid, dom, E, ph, system(ph, nxt, E, dom))

    def dependson_cv(self, v, lid):
        return contains(v, lambda x: x.op == "cv" and x.args[0] == lid)

    def const_expr(self, e, module):
        """Value of a class-level default expression."""
        old = getattr(self, "frame", None)
        self.frame = Frame(None, module, None, None)
        st = State()
        try:
            return self.fz(self.ev(e, st), st)
        finally:
            self.frame = old

    # ------------------------------------------------------------------ entry
    def summarise(self, fi, selfcls=None, env=None, types=None):
        self.reset()
        cls = selfcls or fi.cls
        st = State()
        selfn = None
        for p in fi.params + fi.kwonly:
            n = N("sym", p)
            if p == (fi.params[0] if fi.params else None) and fi.cls is not None and fi.kind in ("method", "prop"):
                n = N("sym", "self")
                self.types[n] = ("cls", cls.qual)
                selfn = n
            elif p == (fi.params[0] if fi.params else None) and fi.kind == "class":
                n = N("cls", cls.qual)
                selfn = n
            else:
                t = self.ix.type_of_ann(fi.ann.get(p), fi.module) if types is None else types.get(p)
                self.types.pop(n, None)
                if t is not None:
                    self.types[n] = t
            st.env[p] = n
        if fi.vararg:
            st.env[fi.vararg] = N("sym", "*" + fi.vararg)
        if fi.kwarg:
            st.env[fi.kwarg] = N("sym", "**" + fi.kwarg)
        if env:
            st.env.update(env)
        fr = Frame(fi, fi.module, selfn, fi.cls)
        self.frame = fr
        self.last_call = None
        self.stack = [(fi.qual, fi.module.rel, fi.node.lineno)]
        end = self.block(fi.node.body, st)
        if end is not None:
            fr.outcomes.append((end.pc, "ret", NONE, end))
        s = Summary()
        s.func = fi
        s.cls = cls
        s.outcomes = [(conj(pc), kind, self.fz(v, s2) if kind == "ret" else v) for pc, kind, v, s2 in fr.outcomes]
        r = None
        for c, kind, v in reversed(s.outcomes):
            r = v if r is None else phi(c, v, r)
        s.ret = r if r is not None else NONE
        # final contents of caller-visible objects
        s.muts = list(self.muts)
        s.events = list(self.events)
        s.calls = list(self.calls)
        s.notes = list(self.notes)
        s.final = [(conj(pc), s2) for pc, kind, v, s2 in fr.outcomes if kind == "ret"]
        s.interp = self
        s.frame_outcomes = list(fr.outcomes)
        s.params = {p: st.env[p] for p in fi.params + fi.kwonly} if False else None
        return s


def mapstate(n, rec):
    na = mapargs(n.args, rec)
    return n if na == n.args else N(n.op, *na)


def _dupd(old, pairs):
    if old.op == "dupd":
        return N("dupd", old.args[0], old.args[1] + tuple(pairs))
    return N("dupd", old, tuple(pairs))


def _strip_list(n, ph):
    if n is ph:
        return N("list")
    if n.op == "append":
        a = _strip_list(n.args[0], ph)
        if a is None:
            return None
        if a.op == "list":
            return N("list", *(a.args + (n.args[1],)))
        return N("append", a, n.args[1])
    if n.op == "concat":
        a = _strip_list(n.args[0], ph)
        if a is None:
            return None
        if a.op == "list" and not a.args:
            return n.args[1]
        return N("concat", a, n.args[1])
    if n.op == "phi":
        a, b = _strip_list(n.args[1], ph), _strip_list(n.args[2], ph)
        if a is None or b is None:
            return None
        return phi(n.args[0], a, b)
    return None


SETS = ("setof", "setadd", "setupd")


def _strip_set(n, ph):
    """set states over the placeholder -> gated list of what is put in"""
    if n is ph:
        return N("list")
    if n.op in ("setadd", "setupd"):
        a = _strip_set(n.args[0], ph)
        if a is None:
            return None
        if n.op == "setadd":
            return N("list", *(a.args + (n.args[1],))) if a.op == "list" else N("append", a, n.args[1])
        x = n.args[1].args[0] if n.args[1].op == "setof" else N("call", N("glob", "builtins.list"), (n.args[1],), ())
        return x if a.op == "list" and not a.args else N("concat", a, x)
    if n.op == "phi":
        a, b = _strip_set(n.args[1], ph), _strip_set(n.args[2], ph)
        if a is None or b is None:
            return None
        return phi(n.args[0], a, b)
    return None


def _strip_dict(n, ph):
    if n is ph:
        return N("dict", ())
    if n.op == "dupd":
        a = _strip_dict(n.args[0], ph)
        if a is None or any(v.op == "del" for k, v in n.args[1]):
            return None
        if a.op == "dict":
            return N("dict", a.args[0] + n.args[1])
        return N("dupd", a, n.args[1])
    if n.op == "phi":
        a, b = _strip_dict(n.args[1], ph), _strip_dict(n.args[2], ph)
        if a is None or b is None:
            return None
        return phi(n.args[0], a, b)
    return None


def _strip_arr(n, ph):
    """aset chain over the placeholder -> gated list of (index, value)"""
    if n is ph:
        return N("list")
    if n.op == "aset":
        a = _strip_arr(n.args[0], ph)
        if a is None:
            return None
        it = N("tuple", n.args[1], n.args[2])
        if a.op == "list":
            return N("list", *(a.args + (it,)))
        return N("append", a, it)
    if n.op == "phi":
        a, b = _strip_arr(n.args[1], ph), _strip_arr(n.args[2], ph)
        if a is None or b is None:
            return None
        return phi(n.args[0], a, b)
    return None


def _strip_sum(n, ph):
    if n is ph:
        return const(0)
    if n.op == "bin" and n.args[0] == "+":
        a = _strip_sum(n.args[1], ph)
        if a is not None:
            return N("bin", "+", a, n.args[2])
        b = _strip_sum(n.args[2], ph)
        if b is not None:
            return N("bin", "+", n.args[1], b)
    if n.op == "bin" and n.args[0] == "-":
        a = _strip_sum(n.args[1], ph)
        if a is not None:
            return N("bin", "-", a, n.args[2])
    if n.op == "phi":
        a, b = _strip_sum(n.args[1], ph), _strip_sum(n.args[2], ph)
        if a is None or b is None:
            return None
        return phi(n.args[0], a, b)
    return None


def _strip_cat(n, ph):
    if n is ph:
        return const("")
    if n.op == "cat":
        if n.args and n.args[0] is not None:
            a = _strip_cat(n.args[0], ph)
            if a is not None:
                return N("cat", a, *n.args[1:])
    if n.op == "phi":
        a, b = _strip_cat(n.args[1], ph), _strip_cat(n.args[2], ph)
        if a is None or b is None:
            return None
        return phi(n.args[0], a, b)
    return None
