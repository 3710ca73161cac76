"""Reference definitions (spec/*.py) and their comparison with the code.

A spec file is Python syntax that is only ever parsed.  Each decorated function
is the definition of one observable of one target:

    @ensures("P08", "sampling.check_sample")              # the returned value
    @ensures("P06", "time.Resample.run", view="ret.metadata.fs")
    @ensures("P05", "common.ResisticsWriter._check_dir", view="effects")

Both the target and the definition go through the same value-graph
construction and normal form, and the two normal forms are compared case by
case.  ANY stands for an unconstrained value.
"""
import ast
import contextlib
import fnmatch
import glob
import os
import signal
import time

from .ir import N, Node, const, TRUE, FALSE, NONE, show, walk, contains, digest, kids, subst
from .index import Index, Func, Module, ClassInfo, AnalysisError, dotted, import_map
from .interp import Interp, conj, phi
from .canon import Canon, Blowup, num, nullable, BINDERS, SYN, SIG, DEFKW, METHOD_FUNC, a_glob
from .equal import Compare, Diff, Facts

STRUCT_OK = {"list", "dict", "const", "sym", "attr", "idx", "call", "method", "poly", "ite", "lt0", "eq0", "isnone", "truth", "eqv",
             "in", "isinstance", "mk", "inst", "path", "strcat", "raise", "slice", "glob", "func", "vfunc", "cls", "mod", "inv", "pow", "iv",
             "elem", "cv", "dom", "keys", "upd", "dupd", "aset", "spread", "bitop", "un", "setof", "dictof", "fmtspec", "any", "seqmul", "unset",
             "parsed", "lamb", "mask", "noevent", "ev1", "del", "fromdict", "event"}
NUMERIC = {"numpy.floor", "numpy.ceil", "numpy.round", "builtins.round", "builtins.int", "numpy.mean", "numpy.median", "numpy.sum", "numpy.min",
           "numpy.max", "numpy.abs", "numpy.conj", "numpy.log2", "numpy.log10", "numpy.log", "numpy.exp", "numpy.sqrt", "numpy.std", "numpy.var",
           "builtins.len", "builtins.str", "numpy.cumsum", "numpy.argmin", "numpy.argmax", "numpy.isnan", "numpy.any", "numpy.all", "numpy.empty",
           "numpy.zeros", "numpy.ones", "numpy.nan", "numpy.pi", "numpy.inf", "numpy.degrees", "numpy.radians", "numpy.angle", "numpy.prod",
           "numpy.sin", "numpy.cos", "builtins.float", "builtins.bool", "builtins.sorted", "numpy.nanmean", "numpy.float32", "numpy.float64", "numpy.complex64", "numpy.complex128",
           "builtins.abs", "numpy.arange", "numpy.linspace", "numpy.fft.rfft", "numpy.fft.rfftfreq", "numpy.interp"}

# further operations that are nothing but themselves: a term with one of them is not another spelling of a term without it
DEFINITE = {".exists", ".is_dir", ".is_file", ".with_suffix", ".with_name", ".iterdir", ".glob", ".rglob", ".mkdir", ".unlink", ".rmdir", ".resolve", ".absolute",
            ".write", ".open", ".lower", ".upper", ".title", ".capitalize", ".strip", ".lstrip", ".rstrip", ".startswith", ".endswith", ".isdigit",
            ".replace", ".round", ".floor", ".ceil", ".sort", ".reverse", ".total_nanoseconds", ".total_seconds", ".sort_index", ".sort_values", ".head", ".tail", ".shift", ".dropna", ".fillna",
            "builtins.reversed", "builtins.sum", "builtins.nth",
            ".intersection", ".difference", "numpy.sort", "numpy.flip", "numpy.roll", "numpy.diff", "numpy.unwrap", "numpy.tan", "numpy.arctan", "numpy.arctan2", "numpy.arcsin", "numpy.arccos",
            "numpy.nan_to_num", "numpy.nanmedian", "numpy.nansum", "numpy.nanmax", "numpy.nanmin", "numpy.nanstd", "numpy.percentile", "numpy.log1p",
            "numpy.trunc", "numpy.rint", "numpy.fix", "numpy.isfinite", "numpy.isinf", "numpy.sign", "numpy.fft.fft", "numpy.fft.ifft", "numpy.fft.irfft",
            "numpy.hanning", "numpy.hamming", "numpy.blackman", "numpy.bartlett", "numpy.kaiser", "numpy.convolve", "numpy.gradient", "numpy.cumprod",
            "numpy.linalg.norm", "numpy.linalg.det", "numpy.linalg.inv", "numpy.linalg.solve", "numpy.linalg.lstsq", "numpy.random.rand", "numpy.random.normal"}
LOOPS = ("flatmap", "mcat", "exists", "dflat", "aflat", "msum", "lout", "first", "evmap", "cyc")
DEFINITE_PREFIX = ("resistics.", "scipy.", "random.", "numpy.random.", "sklearn.")
# operations that can spell one another: undecided when the definition uses a member of the same family
FAMILIES = [
    {"numpy.reshape", "numpy.ravel", ".flatten", "numpy.squeeze", "numpy.expand_dims", "numpy.newaxis", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.stack", "numpy.vstack",
     "numpy.hstack", "numpy.concatenate", "numpy.column_stack", "numpy.tile", "numpy.repeat", "numpy.broadcast_to", "numpy.append", "op:newaxis"},
    {"numpy.transpose", "numpy.swapaxes", "numpy.moveaxis", "numpy.rollaxis", "numpy.einsum", "numpy.dot", "numpy.matmul"},
]


# operations the normal form is not complete for: a term that has one where the
# other has none may be another spelling
SOFT = {k: f for f, ks in {
    "length": "builtins.len .size .shape .ndim numpy.size numpy.shape builtins.range builtins.enumerate numpy.arange",
    "pick": ".iloc .loc .iat .at .values .to_numpy .tolist .item .array .index .columns",
    "reduce": "numpy.any numpy.all numpy.max numpy.min builtins.max builtins.min .max .min .any .all numpy.sum builtins.sum .sum .mean numpy.mean builtins.any builtins.all builtins.sorted numpy.sort .sort numpy.unique .unique numpy.prod .prod",
    "build": "builtins.list builtins.set builtins.dict numpy.array setof dictof spread .astype numpy.zeros numpy.ones numpy.empty numpy.full",
    "keys": "keys .keys .items .values dom in", "lookup": "builtins.getattr throws .get isinstance .copy", "un": "un bitop", "state": "cv", "rearranged": " ".join(sorted(set().union(*FAMILIES) - {"op:newaxis"}))}.items() for k in ks.split()}
FAMILIES.append({"numpy.argsort", "numpy.lexsort", "numpy.sort", ".sort", ".argsort", "builtins.sorted"})
NAMED = {"builtins.len", ".size", ".shape", ".ndim", ".iloc", ".loc", ".iat", ".at", ".values", ".columns", ".index"}
NARROW = {"numpy.float32", "numpy.float16", "numpy.complex64", "numpy.int8", "numpy.int16", "numpy.int32", "builtins.int", "builtins.bool"}
REDUCE = {"numpy.max", "numpy.min", "numpy.mean", "numpy.sum", "numpy.median", "numpy.std", "numpy.var", "numpy.prod"}
RIGID = {x for x in NUMERIC | DEFINITE if x not in ("builtins.len", "builtins.str", "builtins.float", "builtins.bool", "numpy.float64", "numpy.arange")} | {".max", ".min", ".mean", ".sum", ".any", ".all", "builtins.any", "builtins.all", "builtins.max", "builtins.min"}


class Contract(object):
    def __init__(self, prop, target, view, fn, specmod, opts):
        self.prop, self.target, self.view, self.fn, self.specmod = prop, target, view, fn, specmod
        self.opts = opts
        self.id = f"{target}:{view}" + (":" + opts["case"] if "case" in opts else "")


class SpecSet(object):
    def __init__(self, index, specdir):
        self.ix = index
        self.contracts = []
        self.opaque = set()
        self.lemmas = []
        self.shared = {}
        for p in sorted(glob.glob(os.path.join(specdir, "*.py"))):
            self.load(p)
        self.share()

    def share(self):
        """definitions judged by the checks of further properties"""
        for prop, pats in self.shared.items():
            have = {c.id for c in self.contracts if c.prop == prop}
            for pat in pats:
                hits = [c for c in self.contracts if fnmatch.fnmatchcase(c.id, pat)]
                if not hits:
                    raise AnalysisError(f"no definition matches {pat}")
                for c in hits:
                    if c.id not in have:
                        have.add(c.id)
                        self.contracts.append(Contract(prop, c.target, c.view, c.fn, c.specmod, c.opts))

    def literal(self, e, m):
        if isinstance(e, ast.Name):
            return self.literal(m.assigns[e.id], m)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self.literal(e.left, m) + self.literal(e.right, m)
        if isinstance(e, ast.Dict):
            return {self.literal(k, m): self.literal(v, m) for k, v in zip(e.keys, e.values)}
        if isinstance(e, (ast.List, ast.Tuple)):
            return [self.literal(x, m) for x in e.elts]
        return ast.literal_eval(e)

    def load(self, p):
        name = "spec." + os.path.basename(p)[:-3]
        rel = os.path.relpath(p, os.path.dirname(os.path.dirname(p)))
        tree = ast.parse(open(p).read(), filename=p)
        m = Module(name, rel, tree)
        for st in tree.body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                m.imports.update(import_map(st, name))
            elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                if st.targets[0].id == "SHARED":
                    self.shared = ast.literal_eval(st.value)
                elif st.targets[0].id == "OPAQUE":
                    for e in ast.literal_eval(st.value):
                        self.opaque.add(e)
                else:
                    m.assigns[st.targets[0].id] = st.value
            elif isinstance(st, ast.FunctionDef):
                decs = [d for d in st.decorator_list if isinstance(d, ast.Call) and dotted(d.func) == "ensures"]
                f = Func(f"{name}.{st.name}", m, None, st, "func")
                if not decs:
                    m.funcs[st.name] = f
                    self.ix.funcs[f.qual] = f
                for d in decs:
                    a = [self.literal(x, m) for x in d.args]
                    kw = {}
                    for k in d.keywords:
                        v = self.literal(k.value, m)
                        kw.update(v if k.arg is None else {k.arg: v})
                    view = kw.pop("view", "ret")
                    for prop in a[0].split():
                        for target in a[1].split():
                            for v in ([view] if isinstance(view, str) else view):
                                self.contracts.append(Contract(prop, target, v, f, m, dict(kw)))


class OutOfTime(BaseException):
    pass


T0 = time.time()
LIMIT, INLINE_LIMIT, TOTAL = 120, 40, 600


@contextlib.contextmanager
def timelimit(seconds):
    """raise OutOfTime in the enclosed block after `seconds` (not nested)"""
    def late(*a):
        raise OutOfTime()
    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Result(object):
    def __init__(self, contract, status, detail="", diffs=(), stats=None, func=None):
        self.contract, self.status, self.detail, self.diffs, self.stats, self.func = contract, status, detail, list(diffs), stats or {}, func


def erase_records(f, a, k):
    if f.op in ("func", "vfunc") and f.args[0] in ("resistics.common.get_record",):
        return N("call", f, (), tuple((x, v) for x, v in sorted(k) if x == "creator"))
    return None


class Checker(object):
    def __init__(self, index, specs):
        self.ix = index
        self.specs = specs

    def fallback(self, fi):
        mod = fi.module
        ix = self.ix

        def fb(nm):
            r = ix.resolve(mod, nm)
            if r is not None:
                return r
            for m in ix.modules.values():
                if nm in m.classes:
                    return m.classes[nm]
            for m in ix.modules.values():
                if nm in m.funcs:
                    return m.funcs[nm]
            for m in ix.modules.values():
                if nm in m.assigns:
                    return ("assign", m, nm)
            return None

        return fb

    def view_raw(self, s, view, params):
        """the observed quantity as a raw (gated) term"""
        I = s.interp
        if view == "ret" or view.startswith("ret.") or view.startswith("ret["):
            return self.project(s.ret, view[3:])
        if view.startswith("post("):
            p, _, rest = view[5:].partition(")")
            n = N("cls", s.cls.qual) if p == "cls" and s.func.kind == "class" else N("sym", "self" if p == "cls" else p)
            if n.op == "cls" and rest:
                at, _, rest = rest[1:].partition(".")
                n = N("attr", n, at)
                rest = "." + rest if rest else ""
            r = None
            for pc, kind, v, s2 in reversed(s.frame_outcomes):
                x = I.fz(n, s2) if kind == "ret" else v
                r = x if r is None else phi(conj(pc), x, r)
            return self.project(r if r is not None else NONE, rest)
        if view == "effects" or view.startswith("effects:"):
            only = view.split(":")[1].split(",") if ":" in view else None
            items = []
            for e in s.events:
                if only is not None and not any(self.evname(e.node) == o for o in only):
                    continue
                items.append(N("event", conj(e.pc), e.node))
            return N("events", tuple(items))
        if view == "yields":
            items = [N("event", conj(e.pc), e.node) for e in s.events if self.evname(e.node) == "yield"]
            return N("events", tuple(items))
        raise AnalysisError("unknown view " + view)

    def evname(self, n):
        while n.op == "evmap":
            n = n.args[4]
        if n.op == "yield":
            return "yield"
        if n.op == "method":
            return "." + n.args[0]
        if n.op == "call":
            f = n.args[0]
            q = str(f.args[0]) if f.args else "?"
            return q.replace("resistics.", "", 1)
        return n.op

    def project(self, n, path):
        if not path:
            return n
        e = ast.parse("ret" + path, mode="eval").body
        steps = []
        while not isinstance(e, ast.Name):
            if isinstance(e, ast.Attribute):
                steps.append(("attr", e.attr))
                e = e.value
            else:
                steps.append(("idx", ast.literal_eval(e.slice)))
                e = e.value
        for k, v in reversed(steps):
            n = self.proj1(n, k, v)
        return n

    def proj1(self, n, k, v):
        if n.op == "phi":
            return phi(n.args[0], self.proj1(n.args[1], k, v), self.proj1(n.args[2], k, v))
        if n.op == "raise":
            return n
        return N("attr", n, v) if k == "attr" else N("idx", n, const(v))

    def plain_effects(self, cn, e, c):
        """one spelling for file system effects that have several"""
        if e.op == "call" and e.args[0].op == "glob" and e.args[0].args[0] in ("os.makedirs", "os.mkdir") and len(e.args[1]) == 1:
            kw = tuple(k for k in e.args[2] if k[0] == "exist_ok") + ((("parents", TRUE),) if e.args[0].args[0] == "os.makedirs" else ())
            e = N("method", "mkdir", e.args[1][0], (), kw)
        if e.op == "method" and e.args[0] == "mkdir" and not e.args[2]:
            kw = dict(e.args[3])
            if kw.get("exist_ok") is TRUE:
                c = cn.band(c, cn.bnot(cn.b(N("truth", N("method", "exists", e.args[1], (), ())))))
            if kw.get("exist_ok") in (TRUE, FALSE):
                kw.pop("exist_ok")
            if kw.get("parents") is FALSE:
                kw.pop("parents")
            return [(N("method", "mkdir", e.args[1], (), tuple(sorted(kw.items()))), c)]
        if e.op == "method" and e.args[0] == "write_text" and len(e.args[2]) == 1 and not e.args[3]:
            f = N("method", "open", e.args[1], (const("w"),), ())
            return [(f, c), (N("method", "write", f, e.args[2], ()), c)]
        return [(e, c)]

    def canon_events(self, cn, n):
        """canonical multiset of (condition, effect)"""
        out = []

        def add(c, e):
            if c is FALSE or e.op == "noevent":
                return
            if e.op == "ite":
                a = cn.atom(e.args[0])
                add(cn.band(c, a), e.args[1])
                add(cn.band(c, cn.bnot(a)), e.args[2])
                return
            if e.op == "evs":
                for x in e.args[0]:
                    add(cn.band(c, x.args[0]), x.args[1])
                return
            for e, c in self.plain_effects(cn, e, c):
                out.append((e, c))

        for it in n.args[0]:
            c = cn.b(it.args[0])
            add(c, cn.c(it.args[1]))
        by = {}
        for e, c in out:
            by[e] = cn.bor(by[e], c) if e in by else c
        return by

    def summarise(self, I, fi, cls):
        s = I.summarise(fi, cls)
        return s

    def check(self, ct):
        """the verdict on one definition; a second attempt follows calls that
        are otherwise compared by name"""
        def within(x):
            return max(1, min(x, TOTAL - (time.time() - T0)))
        try:
            with timelimit(within(LIMIT)):
                r = self.compare(ct)
        except OutOfTime:
            return Result(ct, "undecided", "out of time")
        except (TypeError, ValueError, KeyError, IndexError, AttributeError, AssertionError) as e:
            return Result(ct, "undecided", f"not analysable ({type(e).__name__}: {e})")
        if r.status != "differs":
            return r
        try:
            with timelimit(within(INLINE_LIMIT)):
                r2 = self.compare(ct, inline=True)
            if r2.status == "holds":
                return r2
        except (OutOfTime, TypeError, ValueError, KeyError, IndexError, AttributeError, AssertionError):
            pass
        r.status = "undecided" if r.detail else "violation"
        return r

    def given(self, fi):
        """the arguments that cannot be None; those that are a path or text"""
        a = fi.node.args
        pos = a.posonlyargs + a.args
        dflt = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        some, paths = set(), set()
        for p, ann in fi.ann.items():
            d = dflt.get(p)
            if ann is None or nullable(ann) or isinstance(d, ast.Constant) and d.value is None:
                continue
            some.add(p)
            t = self.ix.type_of_ann(ann, fi.module)
            if t and t[0] == "union" and len(t[1]) == 2 and ("prim", "str") in t[1] and ("ext", "pathlib.Path") in t[1]:
                paths.add(p)
        return some, paths

    def compare(self, ct, inline=False):
        head = ct.target.rpartition(".")[0]
        try:
            if "@" in ct.target:                 # the validator of a field
                head, _, fld = ct.target.partition("@")
                ci = self.ix.cls(head)
                vs = [m for c in ci.mro() for m in c.methods.values() if isinstance(m.validator, ast.Call)
                      and fld in [a.value for a in m.validator.args if isinstance(a, ast.Constant)]]
                if len(vs) != 1:
                    return Result(ct, "undecided", f"{len(vs)} validators for {ct.target}")
                fi = vs[0]
            else:
                fi = self.ix.func(ct.target)
        except AnalysisError as e:
            return Result(ct, "error", str(e))
        cls = None
        if fi.kind not in ("func",):
            try:
                cls = self.ix.cls(head)
            except AnalysisError:
                cls = fi.cls
        own = fi.qual
        noinl = set(ct.opts.get("inline", ()))
        extra = set(ct.opts.get("opaque", ()))

        def opaque(f):
            q = f.qual.replace("resistics.", "", 1)
            if q == "common.get_record":
                return True
            if inline:
                return False
            if q in noinl or f.qual == own:
                return False
            return q in self.specs.opaque or q in extra

        I = Interp(self.ix, opaque=opaque)
        I.fallback = None
        I.virtual = set(ct.opts.get("virtual", ()))
        stats = {}
        try:
            s = I.summarise(fi, cls)
            sf = Func(fi.qual + "<spec>", ct.specmod, fi.cls, ct.fn.node, fi.kind)
            for p in sf.params:
                if p in fi.ann:
                    sf.ann[p] = None
            types = {p: self.ix.type_of_ann(fi.ann.get(p), fi.module) for p in fi.params + fi.kwonly}
            miss = [p for p in sf.params + sf.kwonly if p not in fi.params + fi.kwonly and p != "self" and p != "cls"]
            env = None
            if miss and (fi.node.name.startswith("_") or getattr(fi, "validator", None) is not None) and len(sf.params) <= len(fi.params) and not sf.kwonly:
                # arguments of internal operations are known by position
                env = {a: N("sym", b) for a, b in zip(sf.params, fi.params) if a != b and a not in ("self", "cls")}
                types.update({a: types.get(b) for a, b in zip(sf.params, fi.params)})
                miss = []
            if miss:
                return Result(ct, "error", f"anchor vanished: parameter(s) {miss} of {fi.qual}", func=fi)
            I.fallback = self.fallback(fi)
            code = self.view_raw(s, ct.view, fi.params)
            ev = (s.events, s.calls, s.notes)
            sp = I.summarise(sf, cls, types=types, env=env)
            notes = ev[2]
            I.given, I.pathstr = self.given(fi)
            cn = Canon(I, erase=erase_records)
            view = ct.view
            if view.startswith("effects") or view == "yields":
                spec = self.view_raw(sp, view, sf.params)
                ca, cb = self.canon_events(cn, code), self.canon_events(cn, spec)
                if not cb:
                    return Result(ct, "error", "vacuous definition: it states no effect", func=fi)
                cmpr = Compare(cn, partial=bool(ct.opts.get("partial")))
                diffs = self.events(cmpr, ca, cb)
                cc = N("list", *ca)
                cs = N("list", *cb)
                stats["atoms"] = len(ca)
            else:
                spec = sp.ret if not view.startswith("post(") else (sp.ret if ct.opts.get("ret", True) else None)
                cc, cs = cn.c(code), cn.c(spec)
                cmpr = Compare(cn, partial=bool(ct.opts.get("partial")))
                diffs = cmpr.run(cc, cs)
                stats["atoms"] = len({x.args[0] for x in walk(cc) if x.op == "ite"})
            stats["cases"] = cmpr.n
            stats["terms"] = sum(1 for _ in walk(cc))
            stats["calls"] = len(ev[1])
            stats["files"] = sorted({c[1] for c in ev[1]} | {fi.module.rel})
            stats["functions"] = sorted({c[0] for c in ev[1] if c[0].startswith("resistics.")} | {fi.qual})
        except Blowup as e:
            if not inline:
                return Result(ct, "undecided", f"normal form exceeds the size bound ({e})", func=fi, stats=stats)
            return Result(ct, "undecided", f"normal form exceeds the size bound when inlined ({e})", func=fi, stats=stats)
        except RecursionError:
            return Result(ct, "undecided", "recursion", func=fi, stats=stats)
        if not diffs:
            return Result(ct, "holds", stats=stats, func=fi)
        self.cn = cn
        swap = {(d[1], d[2], d[0]) for d in diffs}
        why = ["" if (d[2], d[1], d[0]) in swap and not notes and (d[3][-1:] == ("list",) or self.plain(d[1]) and self.plain(d[2])) else self.doubt(cn, d, cs, notes) for d in diffs]
        if all(why) and not notes and not view.startswith("effects") and view != "yields":
            w = self.altered(cn, cc, cs, ct)
            if w is not None:
                return Result(ct, "differs", "", [Diff(((), w[0], w[1], ("the one difference",)))], stats, fi)
        if all(why):
            return Result(ct, "differs", "; ".join(sorted(set(why)))[:300], diffs, stats, fi)
        return Result(ct, "differs", "", [d for d, w in zip(diffs, why) if not w], stats, fi)

    LOSSY = {"numpy.round", "numpy.around", "builtins.round", "numpy.unwrap", "numpy.cumsum", "numpy.diff", "numpy.nan_to_num", "numpy.conj", "numpy.float32", "numpy.complex64",
             ".round", ".fillna", ".dropna", ".shift", ".cumsum", ".diff", ".conj", ".ffill", ".bfill"}

    def inner(self, w):
        """what a term is when the operation on top, which loses or changes
        values, is taken away"""
        k = self.top(w)
        if w.op == "call" and k in self.LOSSY:
            r = w.args[1] + tuple(v for n, v in w.args[2] if n in ("a", "p", "x", "object", "number"))
            return r[0] if r else None
        if w.op == "method" and (k in self.LOSSY or k == ".astype" and dict(w.args[3]).get("dtype", w).op == "glob" and
                                 dict(w.args[3])["dtype"].args[0] in ("numpy.float32", "numpy.float16", "numpy.complex64")):
            return w.args[1]
        if w.op == "idx" and w.args[1].op == "slice" and all(b.op == "const" for b in w.args[1].args) and not self.whole(w.args[1]) and w.args[1].args[:2] != (NONE, NONE):
            return w.args[0]
        if w.op == "idx" and (w.args[1].op in ("mask", "un") or self.top(w.args[1]) in ("numpy.isfinite", "numpy.isnan")) and contains(w.args[1], lambda z: z is w.args[0]):
            return w.args[0]
        if w.op in ("flatmap", "dflat") and w.args[-1] == () and w.args[-2].op == "ite" and w.args[-3] is FALSE:
            # without a test on quantities that keeps entries out
            c, p, q = w.args[-2].args
            nil = N("list") if w.op == "flatmap" else N("dict", ())
            one = q if p is nil else p
            if nil in (p, q) and c.op in ("lt0", "eq0", "eqv") and (one.op == "dict" and len(one.args[0]) == 1 or one.op == "list" and len(one.args) == 1 and one.args[0].op != "spread"):
                return N(w.op, *(w.args[:-2] + (one, ())))
        if w.op == "flatmap" and w.args[2] is FALSE and not w.args[4] and w.args[1].args[0] is const("n") and w.args[3].op == "ite":
            ls = [z for z in w.args[3].args[1:] if z.op == "list" and len(z.args) == 1 and z.args[0].op == "idx" and z.args[0].args[1] is N("iv", w.args[0])]
            if ls and N("list") in w.args[3].args[1:] and self.cn.flen(ls[0].args[0].args[0]) is w.args[1].args[1]:
                return ls[0].args[0].args[0]
        return None

    def altered(self, cn, cc, cs, ct):
        """the one operation, losing or changing values, that separates the code
        from the definition"""
        have = set(walk(cs))
        n = 0
        for w in sorted({w for w in walk(cc) if w not in have}, key=digest):
            z = self.inner(w)
            if z is None:
                continue
            n += 1
            if n > 8:
                return None
            c2 = cn.c(subst(cc, {w: z}))
            if not Compare(cn, partial=bool(ct.opts.get("partial"))).run(c2, cs):
                return w, z
        return None

    def events(self, cmpr, ca, cb):
        """effects of the code against those of the definition"""
        diffs, odd, left = [], [], dict(cb)
        for e, c in ca.items():
            e2 = e if e in left else next((x for x in left if not cmpr.run(e, x)), None)
            if e2 is None:
                odd.append((e, c))
            else:
                for d in cmpr.run(c, left.pop(e2)):
                    x = Diff(d[:3] + (d[3] + ("condition of effect", self.evname(e)),))
                    x.extra, x.lost = d.extra, d.lost
                    diffs.append(x)
        for e, c in odd:
            best = None
            for e2 in left:
                if self.evname(e2) == self.evname(e):
                    ds = cmpr.run(e, e2)
                    if best is None or len(ds) < len(best[1]):
                        best = e2, ds
            if best is None:
                diffs.append(Diff(((), e, N("noevent"), ("unexpected effect",))))
            else:
                left.pop(best[0])
                diffs += best[1]
        for e in left:
            diffs.append(Diff(((), N("noevent"), e, ("missing effect",))))
        for d in diffs:
            if d[3][-1:] in (("unexpected effect",), ("missing effect",)):
                d.peers = [e for e, _ in odd]
        return diffs

    # -------------------------------------------------------------- certainty
    def doubt(self, cn, d, cs, notes, depth=0):
        """Is a difference between the two terms a difference in meaning?  The
        reason why it may not be, or nothing.  Two spellings that the normal
        form is not complete for (lengths of built sequences, shapes of loops,
        reductions, conversions) are not told apart."""
        if depth == 0:
            self.at = d[3]
            self.lost = getattr(d, "lost", ())
            for e in getattr(d, "peers", ()):         # an effect may be part of one that is not understood
                if e is not d[1]:
                    why = self.unknown(e, cs, N("list"), ())
                    if why:
                        return why
        if not notes and (self.edited(d[1], d[2]) or self.edited(d[2], d[1])) and not getattr(d, "extra", ()):
            return ""
        if not notes and "dom" in d[3][-2:] and self.isref(d[1]) and self.isref(d[2]):
            return ""                    # rounds counted by different quantities
        why = self.unknown(d[1], cs, d[2], notes)
        if why:
            return why
        extra, lost = getattr(d, "extra", ()), getattr(d, "lost", ())
        if extra and lost:
            # a test written differently: is it a different test?
            for t in extra:
                u = max(lost, key=lambda u: self.alike(t, u))
                if self.alike(t, u)[1] < 0.25 and not self.soft(t) and not self.unknown(t, cs, t, notes):
                    continue
                w = self.apart(cn, t, u, cs, notes, depth)
                if w:
                    return "condition: " + w
            return ""
        if extra and not lost and not notes and self.swallowed(d[1], d[2], extra):
            return ""
        for t in extra:
            why = self.unknown(t, cs, t, notes)
            if why:
                return why
            if t.op in ("throws",) and not (d[2].op == "raise" and d[1] is t.args[0][0]):
                return "handled exception"
        if not extra and not notes and d[2].op == "raise" and d[1].op not in ("raise", "noevent") and not contains(d[1], lambda x: x.op in LOOPS or x.op in ("raise", "undef")):
            return ""                    # nothing is tested before going on
        for t in extra + lost:
            if contains(t, lambda x: x.op == "exists"):
                return "condition over a loop"
        if not extra and not lost and d[3][-1:] == ("slice",) and self.off(cn, d[1], d[2]):
            return ""
        return self.distinct(d[1], d[2], d[3])

    def off(self, cn, a, b):
        """the same quantity up to a constant (and no end of something's own length,
        past which a slice is cut anyway)"""
        if "poly" not in (a.op, b.op) or any(contains(x, lambda y: y.op == "length" or self.top(y) in ("builtins.len", ".shape", ".size")) for x in (a, b)):
            return False
        k = cn.sub(a, b)
        return k.op == "const" and k.args[0] != 0

    def swallowed(self, code, spec, extra):
        """Where something fails, the specification's value needs what failed (so it
        fails too), while the code goes on with a value that does not."""
        for t in extra:
            if t.op == "throws" and set(t.args[1]) & {"Exception", "BaseException"} and code.op not in ("raise", "noevent"):
                for x in t.args[0]:
                    if (x.op == "parsed" or x.op == "call" and x.args[0].op != "glob" or x.op == "method" and x.args[0] not in ("index", "pop", "remove", "get")) and not contains(code, lambda y: y is x) and self.needs(spec, x):
                        return True
        return False

    def needs(self, n, x):
        """is x evaluated whenever n is?"""
        if n is x:
            return True
        if n.op in ("mk", "list", "call", "method", "poly", "attr", "idx", "parsed", "fmt"):
            return any(self.needs(k, x) for k in kids(n))
        return False

    def apart(self, cn, t, u, cs, notes, depth):
        """two tests: certainly different?  (reason why not)"""
        if depth > 2:
            return "nested conditions"
        if self.last(t, u) or self.last(u, t) or not notes and (self.othertest(cn, t, u) or self.othertest(cn, u, t)):
            return ""
        if t.op != u.op:
            return self.unknown(t, cs, t, notes) or self.distinct(t, u)
        ds = Compare(cn, cap=4000).run(t, u)
        why = "same"
        for d in ds:
            why = self.doubt(cn, d, cs, notes, depth + 1)
            if not why:
                return ""
        return why

    def alike(self, t, u):
        a, b = set(walk(t)), set(walk(u))
        return (t.op == u.op, len(a & b) / len(a | b))

    def loops(self, n):
        return sorted([x.op + ":" + str(next((a.args[0] for a in x.args if isinstance(a, Node) and a.op == "dom"), "")) for x in walk(n) if x.op in LOOPS])

    def vars(self, n):
        """the kinds of loop variables, and the loop-carried values, of a term"""
        return {(x.op,) + x.args[1:] for x in walk(n) if x.op in ("elem", "iv", "cv")}

    def last(self, t, u):
        """what the last round of a loop says against what some round says"""
        if not (t.op == "truth" and t.args[0].op == "lout" and u.op == "exists"):
            return False
        d = t.args[0]
        return d.args[2] is u.args[1] and d.args[3] is FALSE and d.args[0].op == "undef" and not contains(d.args[4], lambda x: x.op == "cv" and x.args[0] == d.args[1])

    def edited(self, x, y):
        """y is x, or a part of x, with something done to it that no other
        spelling undoes"""
        if x.op == "list" and x.args and any(z.op == "spread" and z.args[0] is y for z in x.args) and any(z.op != "spread" for z in x.args):
            return True
        if y.op == "list" and y.args and any(z.op == "spread" and z.args[0] is x for z in y.args) and any(z.op != "spread" for z in y.args):
            return True
        if y.op == "aset" and y.args[0] is x and not (x.op == "cv" and y.args[2].op == "const"):
            return True
        if y.op == "method" and y.args[0] == "astype" and y.args[1] is x and dict(y.args[3]).get("dtype", x).op == "glob" and dict(y.args[3])["dtype"].args[0] in NARROW:
            return True
        # positions among all rows, of the selected ones, against positions counted anew
        if a_glob(x) == "numpy.arange" and y.op == "idx" and y.args[1].op == "mask" and a_glob(y.args[0]) == "numpy.arange" and y.args[0] is not x:
            return True
        # the position in one sequence against the position in another
        if x.op == "iv" and y.op == "method" and y.args[0] == "index" and len(y.args[2]) == 1 and y.args[2][0].op == "idx" and y.args[2][0].args[1] is x:
            return True
        # a loop that also remembers something from one round to the next
        if x.op == y.op and x.op in LOOPS and isinstance(x.args[-1], tuple) and isinstance(y.args[-1], tuple) and 0 < len(x.args[-1]) < len(y.args[-1]) and y.args[-1][:1] and \
                all(p[1] is q[1] for p, q in zip(x.args[-1], y.args[-1])) and any(q[1] is NONE for q in y.args[-1][len(x.args[-1]):]):
            return True
        # one element of what the other summarises
        if self.top(y) in REDUCE and y.op == "call" and dict(y.args[2]).get("a") is not None and x.op == "idx" and x.args[0] is dict(y.args[2])["a"] and x.args[1].op == "const":
            return True
        if self.top(y) in REDUCE and y.op == "call" and dict(y.args[2]).get("a", y).op == "flatmap":
            d, z = dict(y.args[2])["a"].args[1].args[1], x
            while z.op == "attr":
                z = z.args[0]
            if z.op == "idx" and z.args[1].op == "const" and kids(d) and contains(z.args[0], lambda w: w is kids(d)[-1]):
                return True
        # a mapping without some of its entries
        if y.op == "dflat" and y.args[2].args[1].op == "keys" and y.args[2].args[1].args[0] is x and y.args[3] is FALSE and y.args[4].op == "ite":
            nil = [z for z in y.args[4].args[1:] if z.op == "dict" and not z.args[0]]
            all_ = [z for z in y.args[4].args[1:] if z.op == "dict" and len(z.args[0]) == 1 and z.args[0][0][1].op == "idx" and z.args[0][0][1].args[0] is x]
            if nil and all_:
                return True
        # a list selected from elsewhere against a part of the input
        if self.isref(x) and y.op == "flatmap" and y.args[1].op == "dom":
            d = y.args[1].args[1]
            if not contains(d, lambda z: z is x) and self.isref(d.args[1][0] if self.top(d) == "builtins.len" else d):
                return True
        # the elements of another sequence
        if self.plain(x) and x.op in ("attr", "idx") and y.op == "flatmap" and y.args[2] is FALSE and not y.args[4] and y.args[3].op == "list" and len(y.args[3].args) == 1:
            z = y.args[3].args[0]
            if z.op == "idx" and z.args[1] is N("iv", y.args[0]) and z.args[0].op == "attr" and z.args[0] is not x and self.plain(z.args[0]):
                return True
        # a loop left out
        if y.op == "lout" and y.args[4].op == "cv" and not self.lost and x.op not in ("const", "list", "dict") and any(p[0] == y.args[4].args[1] and p[1] is x and not (p[2] is y.args[4]) for p in y.args[5]):
            return True
        # a list filled from the front
        if x.op == "flatmap" and y.op == "lout" and any(z.op == "list" and len(z.args) > 1 and z.args[-1].op == "spread" and z.args[-1].args[0].op == "cv" and
                                                        not any(q.op == "spread" for q in z.args[:-1]) for z in walk(y)):
            return True
        # what is given against what a number of processes make
        z = y
        while z.op == "attr":
            z = z.args[0]
        if z.op == "lout" and not self.lost and self.given_in(x) and any(p[2].op == "call" and p[2].args[0].op == "vfunc" and p[1].op == "call" and p[1].args[0].op in ("func", "vfunc") for p in z.args[5]):
            return True
        # members of all against members of any
        if x.op == "setof" and y.op == "lout" and any(p[2].op == "method" and p[2].args[0] == "intersection" and p[2].args[1] is N("cv", y.args[1], p[0]) for p in y.args[5]):
            return True
        # a list that never repeats a member
        if x.op == "flatmap" and y.op == "lout" and not {"setof", "exists", "in"} & set(self.at) and any(z.op == "in" and z.args[1].op == "cv" and z.args[1].args[0] == y.args[1] for z in walk(y)):
            return True
        # replaced in every round against accumulated
        if self.at[-1:] == ("lout",) and y.op in ("method", "list", "setof", "upd", "dupd") and self.vars(x) and not contains(x, lambda z: z.op == "cv") and \
                (y.op == "method" and y.args[1].op == "cv" and y.args[0] in ("append", "union", "concat", "merge", "join") and x in y.args[2] or
                 y.op == "list" and any(z.op == "spread" and z.args[0].op == "cv" for z in y.args)):
            return True
        # the characters of a text, or the members of a collection, against the thing as one member
        if x.op == "list" and len(x.args) == 1 and self.top(y) == "builtins.list" and len(y.args[1]) == 1 and y.args[1][0] is x.args[0]:
            return True
        # an order that is arbitrary against one that is not
        if self.top(x) == "builtins.sorted" and x.args[1] and x.args[1][0].op == "setof" and self.top(y) == "builtins.list" and len(y.args[1]) == 1 and y.args[1][0] is x.args[1][0] and \
                not {"setof", "exists", "in", "numpy.max", "numpy.min"} & set(self.at):
            return True
        # fixed entries against a mapping that is given
        if x.op == "attr" and self.isref(x) and y.op == "dict" and y.args[0] and all(k.op == "const" and isinstance(k.args[0], str) for k, _ in y.args[0]):
            return True
        # bounded by a constant
        if y.op == "call" and self.top(y) in ("numpy.min", "numpy.max", "builtins.min", "builtins.max"):
            r = y.args[1] + tuple(v for k, v in y.args[2] if k == "a")
            if len(r) == 1 and r[0].op == "list":
                r = r[0].args
            if len(r) == 2 and x in r and any(z.op == "const" and not isinstance(z.args[0], (bool, str)) and z.args[0] is not None and z.args[0] > 1 for z in r):
                return True
        # sizes along different axes
        dx, dy = self.dim(x), self.dim(y)
        if dx and dy and (dx[0] is dy[0] or dx[0].op == dy[0].op == "sym") and dx[1] != dy[1] and dx[1] >= 0 and dy[1] >= 0:
            return True
        # arrays that hold less
        if x.op == y.op == "call" and all(self.top(z) in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.ndarray", "numpy.array") for z in (x, y)):
            t = [dict(z.args[2]).get("dtype") for z in (x, y)]
            if t[0] is not t[1] and t[1] is not None and t[1].op == "glob" and t[1].args[0] in NARROW and (t[0] is None or t[0].op == "glob" and t[0].args[0] not in NARROW):
                return True
        # with its axes exchanged
        if x.op == "sym" and y.op == "call" and self.top(y) in ("numpy.swapaxes", "numpy.transpose") and "idx" not in self.at:
            kw = dict(y.args[2])
            if kw.get("a") is x and (self.top(y) == "numpy.transpose" and len(kw) == 1 or kw.get("axis1", x).op == kw.get("axis2", x).op == "const" and kw["axis1"] is not kw["axis2"]):
                return True
        # what is given against a size
        if not self.at and x.op == "sym" and self.top(y) == "builtins.len" and not contains(y, lambda z: z is x) and self.plain(y.args[1][0]):
            return True
        if self.linear(x, y) or self.passed(x, y):
            return True
        # a list without some of its elements
        if y.op == "flatmap" and y.args[2] is FALSE and not y.args[4] and y.args[1].args[0] is const("n") and y.args[3].op == "ite" and "dom" not in self.at \
                and self.isref(x.args[0] if x.op == "idx" and x.args[1].op == "slice" else x):
            el = N("idx", x, N("iv", y.args[0]))
            if {z for z in y.args[3].args[1:]} == {N("list"), N("list", el)} and self.cn.flen(x) is y.args[1].args[1]:
                return True
        # what is kept from round to round against what is worked out anew
        if x.op == "cv" and y.op not in ("const", "cv") and not self.loops(y) and not contains(y, lambda z: z.op == "cv" and z.args[0] == x.args[0]) and self.vars(y):
            return True
        # one element against the extreme, any or all of them
        arr = self.summary(y)
        if arr is not None and x.op == "idx" and x.args[0] is arr and x.args[1].op == "const":
            return True
        if arr is not None and arr.op == "flatmap" and arr.args[2] is FALSE and not arr.args[4] and arr.args[3].op == "list" and len(arr.args[3].args) == 1:
            if any(self.cn.c(subst(arr.args[3].args[0], {N("iv", arr.args[0]): const(k)})) is x for k in (0, -1)):
                return True
        # only the last round against all of them
        if x.op == "lout" and y.op in ("setof", "flatmap"):
            z = y.args[0] if y.op == "setof" else y
            if z.op == "flatmap" and z.args[1] is x.args[2] and z.args[2] is FALSE is x.args[3] and \
                    not contains(subst(x.args[4], {N("cv", x.args[1], p[0]): p[2] for p in x.args[5]}), lambda w: w.op == "cv"):
                return True
        # the order of one sequence against that of another
        kx, ky = self.keyed(x), self.keyed(y)
        if kx is not None and ky is not None and kx is not ky and kx.args[1] != ky.args[1] and (x is not kx or y is not ky) and kx.args[0] is ky.args[0]:
            return True
        if x.op == y.op == "flatmap" and x.args[2] is FALSE is y.args[2] and not x.args[4] and not y.args[4]:
            if self.cut(x.args[1], y.args[1]):
                return True
            if x.args[1].args[0] is const("n") and y.args[1].args[0] is const("d") and y.args[1].args[1].op == "keys":
                iv = N("iv", x.args[0])
                for z in set(walk(x.args[3])):
                    if z.op == "idx" and z.args[1] is iv and z.args[0].op == "attr" and self.isref(z.args[0]) and z.args[0] is not y.args[1].args[1].args[0]:
                        w = self.cn.c(subst(subst(x.args[3], {z: N("elem", y.args[0])}), {iv: N("iv", y.args[0])}))
                        if w is y.args[3]:
                            return True
            if x.args[1] is y.args[1] and x.args[0] == y.args[0] and x.args[3].op == y.args[3].op == "ite":
                pass
        if self.top(x) == self.top(y) == "builtins.len" and self.wrapped(x.args[1][0], y.args[1][0]):
            return True
        if self.top(y) == "builtins.len" and y.args[1][0].op == "setof" and self.cn.flen(y.args[1][0].args[0]) is x:
            return True
        if self.at[-1:] == ("builtins.len",) and y.op == "setof" and y.args[0].op == "flatmap" and y.args[0].args[1].args[1].op == "keys" and y.args[0].args[1].args[1].args[0] is x and \
                y.args[0].args[2] is FALSE and y.args[0].args[3].op == "list" and len(y.args[0].args[3].args) == 1 and y.args[0].args[3].args[0] is not N("elem", y.args[0].args[0]):
            return True
        w = self.wrapped(x, y)
        if w and not self.unaffected(w) or self.scaled(x, y):
            return True
        # a list with further elements
        if x.op == y.op == "list" and 0 < len(x.args) < len(y.args) and set(x.args) < set(y.args) and all(z.op == "spread" and z.args[0].op == "attr" for z in y.args if z not in x.args):
            return True
        # a size worked out against the size of a result
        if x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" and contains(x.args[0].args[0], lambda z: z.op == "glob" and z.args[0].startswith("scipy.")):
            z = y.args[1][0] if self.top(y) == "builtins.int" else y
            return z.op == "poly" and any(len(m) > 1 for m, _ in z.args[0])
        return False

    def isref(self, x):
        while x.op == "attr":
            x = x.args[0]
        return x.op == "sym"

    def given_in(self, x):
        """a part of what is given"""
        n = 0
        while x.op == "attr" or x.op == "idx" and x.args[1].op in ("const", "sym"):
            n, x = n + 1, x.args[0]
        return x.op == "sym" and n > 0

    def plain(self, x):
        """read directly from what is given: no loop, no computation"""
        while True:
            if x.op == "attr":
                x = x.args[0]
            elif x.op == "idx" and x.args[1].op in ("const", "iv", "elem", "sym"):
                x = x.args[0]
            elif self.top(x) == "builtins.len":
                x = x.args[1][0]
            elif self.top(x) == "numpy.array" and len(x.args[1]) + len(x.args[2]) == 1:
                x = (x.args[1] + tuple(v for _, v in x.args[2]))[0]
            else:
                return x.op in ("sym", "iv", "elem")

    def quantities(self, cn, t):
        """the terms of the linear form a test is about, or nothing"""
        m = cn.topoly(t.args[0])
        qs = {k for k in m if k}
        return qs if qs and all(self.plain(a) for k in qs for a, _ in k) else None

    def summary(self, x):
        """the array whose extreme x is"""
        if self.top(x) in ("numpy.max", "numpy.min", "numpy.any", "numpy.all") and x.op == "call" and not x.args[1] and len(x.args[2]) == 1:
            return x.args[2][0][1]
        return None

    def othertest(self, cn, t, u):
        """two tests of the same things that ask something else of them"""
        rel = ("lt0", "eq0")
        if t.op == "lt0" and u.op == "eq0":
            a = self.quantities(cn, t)
            if a and a == self.quantities(cn, u) and len(a) > 1:
                return True
        if t.op == u.op == "lt0":
            # the extreme of an array against one of its elements
            for q in walk(t.args[0]):
                arr = self.summary(q)
                if arr is None:
                    continue
                for q2 in walk(u.args[0]):
                    if q2.op == "idx" and q2.args[0] is arr and q2.args[1].op == "const":
                        if cn.lt0(cn.c(subst(t.args[0], {q: q2}))) is cn.atom(u):
                            return True
        if t.op == u.op == "lt0" or t.op == u.op == "eq0":
            # the number of elements against a quantity it has nothing to do with
            pass
        # presence against being non-empty
        if t.op == "isnone" and self.isref(t.args[0]):
            x = t.args[0]
            if u.op == "truth" and u.args[0] is x:
                return True
            if u.op in rel:
                m = cn.topoly(u.args[0])
                qs = [k for k in m if k]
                if len(qs) == 1 and len(qs[0]) == 1 and (qs[0][0][0] is x or self.top(qs[0][0][0]) == "builtins.len" and qs[0][0][0].args[1] == (x,)):
                    return True
        # how two texts relate
        r = [self.relation(z) for z in (t, u)]
        if r[0] and r[1] and r[0][0] != r[1][0] and r[0][1] == r[1][1]:
            return True
        # one element against all
        if u.op == "exists" and u.args[2] is FALSE and not u.args[4]:
            for q in set(walk(t)):
                z = q
                if z.op == "idx" and z.args[1].op == "const":
                    z = z.args[0]
                while a_glob(z) in ("builtins.list", "builtins.sorted", "builtins.tuple") and z.args[1] or z.op == "setof":
                    z = z.args[0] if z.op == "setof" else z.args[1][0]
                if q.op == "idx" and z is not q and z.op == "flatmap" and z.args[1] is u.args[1] and z.args[2] is FALSE and z.args[3].op == "list" and len(z.args[3].args) == 1:
                    e = subst(z.args[3].args[0], {N(k, z.args[0]): N(k, u.args[0]) for k in ("elem", "iv")})
                    if cn.c(N("ite", subst(t, {q: e}), TRUE, FALSE)) is u.args[3]:
                        return True
        if t.op == u.op == "exists" and t.args[2:4] == u.args[2:4]:
            return self.cut(t.args[1], u.args[1]) or self.cut(u.args[1], t.args[1])
        return False

    def relation(self, t):
        if t.op in ("in", "eqv") and all(x.op in ("const", "sym", "attr", "idx", "method", "iv", "elem") for x in t.args[:2]):
            return t.op, frozenset(t.args[:2])
        if t.op == "truth" and t.args[0].op == "method" and t.args[0].args[0] in ("startswith", "endswith") and len(t.args[0].args[2]) == 1:
            return t.args[0].args[0], frozenset((t.args[0].args[1], t.args[0].args[2][0]))
        return None

    def cut(self, x, y):
        """rounds over a part of what y goes over"""
        if not (x.op == y.op == "dom" and x.args[0] is const("n")):
            return False
        n = x.args[1]
        if not (self.top(n) == "builtins.len" and n.args[1][0].op == "idx" and n.args[1][0].args[1].op == "slice"):
            return False
        z, k = n.args[1][0].args
        if self.whole(k) or not all(b is NONE or b.op == "const" for b in k.args) or k.args[:2] == (NONE, NONE):
            return False
        while a_glob(z) in ("builtins.list", "builtins.tuple", "builtins.sorted") and len(z.args[1]) == 1:
            z = z.args[1][0]
        if z.op == "method" and z.args[0] in ("values", "keys", "items"):
            z = z.args[1]
        w = y.args[1]
        if w.op == "keys":
            return z is w.args[0] or z is w
        return self.cn.flen(z) is w

    def wrapped(self, x, y):
        """what is lost by the operations y has around x: the order, repeated
        members, or values themselves"""
        lost = set()
        while y is not x:
            if y.op == "setof":
                lost |= {"repeats", "order"}
                y = y.args[0]
            elif y.op == "call" and self.top(y) in ("builtins.list", "builtins.tuple", "numpy.array", "op:iter"):
                r = y.args[1] + tuple(v for _, v in y.args[2])
                if not r:
                    return None
                y = r[0]
            elif y.op == "call" and self.top(y) in ("builtins.sorted", "numpy.sort", "numpy.unique", "numpy.round", "builtins.round", "numpy.abs", "numpy.flip", "numpy.unwrap", "numpy.cumsum"):
                r = y.args[1] + tuple(v for k, v in y.args[2] if k not in ("decimals", "axis", "reverse", "key"))
                if len(r) < 1:
                    return None
                lost.add("order" if self.top(y) in ("builtins.sorted", "numpy.sort", "numpy.flip") else "repeats" if self.top(y) == "numpy.unique" else "values")
                y = r[0]
            elif y.op == "idx" and y.args[1].op == "slice" and all(b.op == "const" for b in y.args[1].args) and y.args[1].args != (NONE, NONE, NONE):
                lost.add("order" if y.args[1].args[:2] == (NONE, NONE) and y.args[1].args[2] is const(-1) else "values")
                y = y.args[0]
            elif y.op == "method" and y.args[0] in ("reset_index", "sort_index", "drop_duplicates", "shift", "cumsum", "round", "sort_values"):
                lost.add("values")
                y = y.args[1]
            else:
                return None
        return lost

    def unaffected(self, lost):
        """is what is lost of no consequence where the difference is?"""
        at = list(self.at)
        if "values" in lost:
            return False
        if {"setof", "exists", "in", "numpy.max", "numpy.min"} & set(at):
            return True
        if "builtins.sorted" in at or "builtins.len" in at:
            return lost == {"order"}
        if "dom" in at:
            i = len(at) - 1 - at[::-1].index("dom")
            return not (i and at[i - 1] in ("lout", "evmap"))
        return False

    def dim(self, x):
        """the size of an array along an axis"""
        if self.top(x) == "builtins.len" and len(x.args[1]) == 1:
            return x.args[1][0], 0
        if x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" and x.args[1].op == "const" and isinstance(x.args[1].args[0], int):
            return x.args[0].args[0], x.args[1].args[0]
        return None

    def linear(self, x, y):
        """two different linear forms of the same quantities"""
        if x.op != "poly" and y.op != "poly":
            return False
        mx, my = ({frozenset(k): c for k, c in self.cn.topoly(z).items()} for z in (x, y))
        ax, ay = ({a for k in m for a, _ in k} for m in (mx, my))
        if not ax or ax != ay or mx == my:
            return False
        if any(contains(a, lambda z: z.op in ("iv", "elem", "cv")) for a in ax) and "list" not in self.at:
            return False
        return len(ax) == 1 or all(self.plain(a) for a in ax)

    CONTAINERS = {"call", "method", "poly", "attr"}

    def passed(self, x, y):
        """y is what certain operations make of x"""
        if x.op in ("const", "sym", "iv", "elem", "cv", "list", "dict") or y.op not in self.CONTAINERS:
            return False
        sure = False
        while y is not x:
            k = self.top(y)
            if y.op == "attr" and y.args[1] in ("size", "shape", "ndim") or k in ("builtins.len", "numpy.size", "numpy.shape") or y.op not in self.CONTAINERS:
                return False
            if y.op in ("call", "method"):
                src = y.args[0] if y.op == "call" else y.args[1]
                if k in NUMERIC & self.LOSSY or k.startswith(("scipy.", "sklearn.")) or y.op == "method" and contains(src, lambda z: z.op == "glob" and z.args[0].startswith("sklearn.")):
                    sure = True
                below = [z for z in (y.args[1] + tuple(v for _, v in y.args[2]) if y.op == "call" else (y.args[1],) + y.args[2]) if contains(z, lambda w: w is x)]
            else:
                below = [z for z in kids(y) if contains(z, lambda w: w is x)]
            if len(below) != 1:
                return False
            y = below[0]
        return sure

    def scaled(self, x, y):
        """y is x with a further factor or term that is certainly something"""
        cn = self.cn
        if not (cn.isarr(x) or cn.isarr(y) or x.op == "poly" or y.op == "poly" or num(x)):
            return False
        mx, my = cn.topoly(x), cn.topoly(y)
        if len(mx) == len(my) == 1:
            (kx, cx), = mx.items()
            (ky, cy), = my.items()
            rest = [q for q in ky if q not in kx]
            if cx == cy and kx and all(q in ky for q in kx) and rest and all(self.sure(a) for a, _ in rest):
                return True
        rest = [k for k in my if k not in mx]
        if mx and rest and all(my.get(k) == c for k, c in mx.items()) and any(k for k in mx) and all(k and all(self.sure(a) for a, _ in k) for k in rest):
            return True
        return False

    def sure(self, a):
        """a quantity read from the input, or an operation on data that yields neither a count nor a constant"""
        if self.isref(a) and not contains(a, lambda z: z.op == "attr" and z.args[1] in ("size", "shape", "ndim")):
            return True
        if self.top(a) in REDUCE | RIGID and a.op == "call":
            return not self.soft(a) & {"length", "builtins.len", ".size", ".shape"}
        return False

    def keyed(self, x):
        """the mapping or sequence whose elements x lists in its own order"""
        while a_glob(x) in ("builtins.list", "builtins.tuple") and len(x.args[1]) == 1:
            x = x.args[1][0]
        if x.op == "keys":
            x = x.args[0]
        elif x.op == "method" and x.args[0] == "keys":
            x = x.args[1]
        return x if x.op == "attr" and self.isref(x) else None

    def soft(self, n):
        out = set()
        for x in walk(n):
            if x.op == "glob":
                k = x.args[0]
            elif x.op == "method":
                k = "." + x.args[0]
            elif x.op == "attr":
                k = "." + str(x.args[1])
            else:
                k = x.op
            if k in SOFT:
                out.add(SOFT[k])
            if k in NAMED:
                out.add(k)
            if x.op == "idx" and x.args[0].op == "idx" and x.args[0].args[1].op == "slice":
                out.add("slice")
            if x.op == "idx" and x.args[1].op == "list" and any(self.whole(y) for y in x.args[1].args):
                out.add("slice")
        return out

    def distinct(self, a, b, where=()):
        if a.op == "raise" or b.op == "raise":
            return ""
        if "noevent" in (a.op, b.op):
            return ""
        if where[-1:] in (("reordered state",), ("another domain",)):
            return "another shape of loop"
        if a.op == "dom" and b.op == "dom" and a.args[0] != b.args[0] or where[-1:] == ("dom",) and a.op == b.op == "const" and isinstance(a.args[0], str):
            return "another shape of loop"
        if any(self.whole(x) for x in (a, b)):
            return "an index over all"
        if a.op == b.op == "list" and len(a.args) != len(b.args) and any(self.whole(x) and x.op != "slice" for x in a.args + b.args):
            return "an index over all"
        for x, y in ((a, b), (b, a)):
            if x.op == "const" or x.op in ("list", "dict") and not any(kids(x)):
                if y.op == "const":
                    return ""
                if x is NONE and y.op not in LOOPS:
                    return ""
                if y.op in LOOPS or self.top(y) in SOFT:
                    return "a constant against a computed value"
                return ""
            # a field of what a function makes may be what the function was given
        for x, y in ((a, b), (b, a)):
            z = x
            while z.op == "attr":
                z = z.args[0]
            if z is not x and z.op == "call" and z.args[0].op in ("func", "vfunc") and y in z.args[1] + tuple(v for _, v in z.args[2]):
                return "may be handed on"
        # one is the other with an operation around it
            if y.op == "call" and x in y.args[1] + tuple(v for _, v in y.args[2]) or y.op == "method" and x is y.args[1]:
                if self.top(y) in RIGID:
                    return ""
        if a.op == "call" and b.op == "call" and a.args[0] is not b.args[0] and a.args[1:] == b.args[1:] and self.top(a) in RIGID and self.top(b) in RIGID:
            return ""
        if a.op == b.op == "method" and a.args[0] != b.args[0] and a.args[1:] == b.args[1:] and self.top(a) in RIGID and self.top(b) in RIGID:
            return ""
        if self.edited(a, b) or self.edited(b, a):
            return ""
        if a.op == b.op and a.op in ("call", "method") and a.args[:-1] == b.args[:-1] and (a.op == "method" or a.args[0].op == "glob"):
            # one passes an argument that the other does not
            ka, kb = dict(a.args[-1]), dict(b.args[-1])
            more = [v for k, v in list(ka.items()) + list(kb.items()) if (k in ka) != (k in kb)]
            if all(ka[k] is kb[k] for k in ka if k in kb) and more and (len(ka) == len(more) + len(kb) or len(kb) == len(more) + len(ka)) and all(v.op != "const" for v in more):
                return ""
        if a.op == b.op == "call" and a.args[0] is b.args[0] and a.args[0].op == "glob" and a.args[1] == b.args[1]:
            ka, kb = dict(a.args[2]), dict(b.args[2])
            other = DEFKW.get((a.args[0].args[0], "axis"))
            if ("axis" in ka) != ("axis" in kb) and other is not None and all(ka.get(p) is kb.get(p) for p in set(ka) | set(kb) if p != "axis"):
                v = ka.get("axis", kb.get("axis"))
                if v.op != "const" or {v.args[0], other} in ({-1, 1}, {-2, 0}, {-1, 0}, {-1, 2}):
                    return "may be the same axis"
        if where and where[-1].startswith(("numpy.", "scipy.")) and a.op == b.op == "const" and {a.args[0], b.args[0]} in ({-1, 1}, {-2, 0}, {-1, 0}, {-1, 2}):
            return "may be the same axis"
        va, vb = self.vars(a), self.vars(b)
        if self.loops(a) != self.loops(b) or va and vb and not va & vb:
            return "another shape of loop"
        s = self.soft(a) ^ self.soft(b)
        if a.op != b.op and not ({a.op, b.op} <= {"poly", "mod", "call", "pow"} and all(x.op != "call" or self.top(x) in RIGID for x in (a, b))):
            s |= (self.soft(a) | self.soft(b)) - {"state", "un"}
        if s:
            return "may be another spelling: " + ", ".join(sorted(s))
        return ""

    def whole(self, y):
        return y.op == "slice" and y.args[:3] == (NONE,) * 3 or y is const(Ellipsis)

    def top(self, n):
        if n.op == "call" and n.args[0].op == "glob":
            return n.args[0].args[0]
        if n.op == "method":
            return "." + n.args[0]
        if n.op == "attr":
            return "." + str(n.args[1])
        return n.op

    # -------------------------------------------------------------- vocabulary
    def heads(self, n):
        out, stack, seen = set(), [n], set()
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op in BINDERS:
                out.add("binder:" + x.op)
            elif x.op == "glob":
                out.add(x.args[0])
            elif x.op == "method":
                out.add("." + x.args[0])
            elif x.op not in STRUCT_OK:
                out.add("op:" + x.op)
            if x.op == "idx" and x.args[1].op == "const" and a_glob(x.args[0]) in ("builtins.list", "builtins.sorted") and len(x.args[0].args[1]) == 1:
                y = x.args[0].args[1][0]              # the element at a fixed position of a mapping
                if y.op == "method" and y.args[0] in ("values", "keys", "items"):
                    stack.append(y.args[1])
                    out.add("builtins.nth")
                    continue
            stack += kids(x)
        return out

    def unknown(self, code, spec, specsub, notes):
        """Does the differing code term use constructs outside the understood
        vocabulary (so that equality cannot be refuted)?"""
        if notes:
            return notes[0]
        h = self.heads(code) - self.heads(spec)
        h = {x for x in h if x not in NUMERIC and x not in DEFINITE and not x.startswith(DEFINITE_PREFIX)}
        if h:
            has = self.heads(spec)
            if any(x.op == "idx" and x.args[1].op in ("const", "list") and (x.args[1] is NONE or NONE in x.args[1].args) for x in walk(spec)):
                has = has | {"op:newaxis"}
            h = {x for x in h if not any(x in f and not (f & has) for f in FAMILIES)}
        if h:
            return "construct(s) outside the understood vocabulary: " + ", ".join(sorted(h))
        return ""
