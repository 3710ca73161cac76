"""Whole-package rules: each ranges over every site of one kind in the package
(functions, stores, fields, call sites) instead of over one named definition."""
import ast
import os
import tempfile

from .ir import N, Node, const, show, walk, TRUE, FALSE
from .index import Index, AnalysisError
from .interp import Interp

RULES = {}
ONLY = None         # development aid: restrict the whole-package rules to one module


def skipped(m):
    return ONLY is not None and m.name != ONLY


class Finding(object):
    def __init__(self, key, where, message):
        self.key, self.where, self.message = key, where, message


class RuleResult(object):
    def __init__(self, name, text):
        self.name, self.text = name, text
        self.findings = []
        self.undecided = []
        self.counts = {}
        self.files = set()
        self.functions = set()


def rule(prop, name, text):
    def deco(fn):
        RULES.setdefault(prop, []).append((name, text, fn))
        return fn
    return deco


def mini(src):
    """a one-module package for the self-tests of the rules"""
    d = tempfile.mkdtemp(prefix="vsa")
    os.makedirs(os.path.join(d, "resistics"))
    with open(os.path.join(d, "resistics", "__init__.py"), "w") as f:
        f.write("")
    with open(os.path.join(d, "resistics", "m.py"), "w") as f:
        f.write(src)
    try:
        return Index(d)
    finally:
        os.unlink(os.path.join(d, "resistics", "m.py"))
        os.unlink(os.path.join(d, "resistics", "__init__.py"))
        os.rmdir(os.path.join(d, "resistics"))
        os.rmdir(d)


SKIP_MODULES = ("resistics.testing", "resistics.plot")


def in_scope(f):
    return not any(f.module.name == m for m in SKIP_MODULES)


def public(f):
    nm = f.qual.rpartition(".")[2]
    if nm.startswith("_"):
        return False
    if f.cls is not None and f.cls.name.startswith("_"):
        return False
    return True


# --------------------------------------------------------------------------- P01
# Operations whose purpose is to change the object they are given.
MAY_CHANGE = {
    "common.History.add_record": {"self"},          # the history being extended
    "time.TimeData.set_chan": {"self"},             # item assignment of a channel
    "time.adjust_time_metadata": {"metadata"},      # documented to adjust and return the metadata
    "time.new_time_data": {"metadata"},             # the new object's own metadata receives the record
    "sampling.HighResDateTime.__modify_schema__": {"field_schema"},
    "letsgo.ProjectCreator.run": {"self"},          # stamps the file information of the metadata it writes
}


def may_change(ix, f, roots):
    ok = set(MAY_CHANGE.get(f.short, ()))
    nm = f.qual.rpartition(".")[2]
    if f.cls is not None and f.cls.is_sub("WriteableMetadata") and nm == "write":
        ok.add("self")
    return ok


# functions that take something to work on and whose callers keep using it
def p01_scope(ix):
    for q, f in sorted(ix.funcs.items()):
        if not in_scope(f) or not public(f) or q.startswith("spec."):
            continue
        if "<" in q or skipped(f.module):
            continue
        yield f


def effect_findings(ix, funcs, permitted):
    out, n, sites, notes, files, fns = [], 0, 0, [], set(), set()
    for f in funcs:
        params = [p for p in f.params + f.kwonly]
        if not params and f.vararg is None:
            continue
        n += 1
        I = Interp(ix)
        try:
            s = I.summarise(f)
        except RecursionError:
            notes.append(f"{f.short}: recursion")
            continue
        files.add(f.module.rel)
        fns.add(f.short)
        notes += [f"{f.short}: {x}" for x in s.notes]
        ok = permitted(ix, f, None)
        seen = set()
        for m in s.muts:
            sites += 1
            bad = set(m.roots) - ok
            for r in sorted(bad):
                k = (f.short, r, m.func, m.kind)
                if k in seen:
                    continue
                seen.add(k)
                out.append((f, r, m))
    return out, n, sites, notes, files, fns


SELFTEST_P01 = '''
import numpy as np
class D:
    def __init__(self, a, b):
        self.a = a
        self.b = b

def bad_alias(d):
    x = d.a
    x.append(1)
    return x

def bad_nested(d):
    e = d.b["k"]
    e.v = 3
    return e

def helper(z):
    z[0] = 1

def bad_call(d):
    helper(d.a)

def bad_aug(arr: np.ndarray):
    y = arr
    y += 1
    return y

def good_copy(d):
    x = list(d.a)
    x.append(1)
    return x

def good_new(d):
    e = D([1], {})
    e.a.append(d.b)
    return e
'''


def selftest_effects():
    ix = mini(SELFTEST_P01)
    fs = [f for q, f in ix.funcs.items() if f.cls is None]
    got = {f.short for f, r, m in effect_findings(ix, [f for f in fs if "bad" in f.qual or "good" in f.qual], lambda *a: set())[0]}
    want = {"m.bad_alias", "m.bad_nested", "m.bad_call", "m.bad_aug"}
    if got != want:
        raise AnalysisError(f"effect analysis self-test failed: {sorted(got)} instead of {sorted(want)}")
    return len(fs)


@rule("P01", "no-argument-mutation",
      "no store, in-place operation or mutating call reachable from a public operation reaches an object owned by one of its arguments")
def r_p01(ix, res):
    res.counts["self_test_functions"] = selftest_effects() if ONLY is None else 0
    funcs = [f for f in p01_scope(ix) if known_api(f)]
    bad, n, sites, notes, files, fns = effect_findings(ix, funcs, may_change)
    res.counts["public_operations_analysed"] = n
    res.counts["mutation_sites_examined"] = sites
    res.undecided += notes
    res.files |= files
    res.functions |= fns
    for f, r, m in bad:
        if f.qual.rpartition(".")[2] == "__init__":
            continue
        chain = " -> ".join(f"{q.replace('resistics.', '')} ({fl}:{ln})" for q, fl, ln in m.stack) if m.stack else ""
        res.findings.append(Finding(
            f"{f.short}|{r}|{m.func.replace('resistics.', '', 1)}|{m.kind}", f"{m.file}:{m.line}",
            f"{f.short} changes its argument '{r}': {m.kind} on {show(m.base, 5)[:160]} in {m.func.replace('resistics.', '', 1)}"
            + (f" reached through {chain}" if chain else "")))
    if n == 0:
        raise AnalysisError("anchor vanished: no public operation found")


# ---------------------------------------------------------------- P01: results are independent of what they were made from
VIEWS = {"numpy.asarray", "numpy.asanyarray", "numpy.squeeze", "numpy.transpose", "numpy.swapaxes", "numpy.real", "numpy.expand_dims",
         "numpy.moveaxis", "numpy.broadcast_to", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ascontiguousarray"}


def basic(k):
    """an index that yields a view of an array"""
    return k.op in ("const", "slice", "iv") or k.op == "tuple" and all(basic(x) for x in k.args)


def located(I, n, st):
    """what an attribute of an object made here refers to"""
    if n.op == "attr":
        f = st.hf.get((n.args[0], n.args[1]))
        if f is not None:
            return f
        b = located(I, n.args[0], st)
        if b.op == "obj" and I.objs[b][1] is not None and I.objs[b][1].op == "new":
            for k, v in I.objs[b][1].args[1]:
                if k == n.args[1]:
                    return v
        if b is not n.args[0]:
            return N("attr", b, n.args[1])
    return n


def shares(I, n, st, depth=0):
    """arguments whose storage n certainly is or is a view of, on some path"""
    if depth > 40:
        return set()
    go = lambda x: shares(I, x, st, depth + 1)
    o, a = n.op, n.args
    if o == "sym":
        return {a[0]}
    if o == "obj":
        if n in st.hc:
            return set()
        init = I.objs[n][1]
        if init is None or init.op != "call" or init.args[0].op != "glob":
            return set()
        return go(init) if init.args[0].args[0] in VIEWS or init.args[0].args[0] == "numpy.array" else set()
    if o == "attr":
        b = a[0]
        f = st.hf.get((b, a[1]))
        if f is not None:
            return go(f)
        b = located(I, b, st)
        if b is not a[0]:
            return go(N("attr", b, a[1]))
        if b.op == "obj":
            v = located(I, n, st)
            return go(v) if v is not n else set()
        if b.op == "phi":
            return go(N("attr", b.args[1], a[1])) | go(N("attr", b.args[2], a[1]))
        if b.op == "mcopy":
            return go(N("attr", b.args[0], a[1]))
        if b.op == "call" and b.args[0].op == "glob" and b.args[0].args[0] == "copy.copy" and b.args[1]:
            return go(N("attr", b.args[1][0], a[1]))
        if b.op in ("sym", "attr"):
            return go(b)
        return set()
    if o == "idx":
        return go(a[0]) if basic(a[1]) and a[0].op in ("sym", "attr", "idx", "obj", "method", "call", "phi") else set()
    if o == "phi":
        return go(a[1]) | go(a[2])
    if o == "method":
        if a[0] in ("view", "squeeze", "transpose", "swapaxes") or a[0] == "astype" and any(k == "copy" and v is FALSE for k, v in a[3]):
            return go(a[1])
        return set()
    if o == "call" and a[0].op == "glob" and a[1]:
        if a[0].args[0] in VIEWS or a[0].args[0] == "numpy.array" and any(k == "copy" and v is FALSE for k, v in a[2]):
            return go(a[1][0])
    return set()


def level_values(n, st, I, depth=0):
    """the values of a dictionary of levels"""
    if depth > 20:
        return
    if n.op == "obj":
        c = I.cur(n, st)
        if c is not n:
            yield from level_values(c, st, I, depth + 1)
    elif n.op == "dict":
        for k, v in n.args[0]:
            yield v
    elif n.op == "phi":
        yield from level_values(n.args[1], st, I, depth + 1)
        yield from level_values(n.args[2], st, I, depth + 1)
    elif n.op == "dflat":
        yield from level_values(n.args[0], st, I, depth + 1)
        yield from level_values(n.args[4], st, I, depth + 1)


INDEPENDENT = ("time.TimeData.copy", "time.TimeData.subsection", "time.new_time_data")


def independent_scope(ix):
    for q, f in sorted(ix.funcs.items()):
        if skipped(f.module) or "<" in q or f.node.name != "run" and f.short not in INDEPENDENT:
            continue
        if f.node.name == "run" and (f.cls is None or not any(f.cls.is_sub(x) for x in ("TimeProcess", "SpectraProcess", "Calibrator", "EvaluationFreqs", "FourierTransform"))
                                     or I_abstract(f)):
            continue
        yield f


def I_abstract(f):
    body = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise)


def independence_findings(ix, funcs):
    out, n, files, notes, fns = [], 0, set(), [], set()
    for f in funcs:
        given = set()
        for p in f.params + f.kwonly:
            t = ix.type_of_ann(f.ann.get(p), f.module)
            c = ix.classes.get(t[1]) if t and t[0] == "cls" else f.cls if p == "self" else None
            if c is not None and c.is_sub("ResisticsData"):
                given.add(p)
        if not given:
            continue
        I = Interp(ix)
        try:
            s = I.summarise(f)
        except RecursionError:
            notes.append(f"{f.short}: recursion")
            continue
        files.add(f.module.rel)
        fns.add(f.short)
        for pc, kind, v, st in s.frame_outcomes:
            if kind != "ret" or v is None:
                continue
            meta = N("attr", v, "metadata")
            parts = [("data", N("attr", v, "data")), ("metadata", meta)]
            parts += [("metadata." + x, N("attr", meta, x)) for x in ("history", "chans", "chans_metadata", "levels_metadata")]
            if v.op == "obj":
                try:
                    d = I.read_attr(v, "data", st, f.node)
                    parts += [("data of a level", x) for x in level_values(d, st, I)]
                except (AttributeError, KeyError, IndexError):
                    pass
            for what, x in parts:
                n += 1
                for p in sorted(shares(I, x, st) & given):
                    if (f, what, p) not in [(a, b, c) for a, b, c in out]:
                        out.append((f, what, p))
    return out, n, files, notes, fns


SELFTEST_INDEPENDENT = '''
import numpy as np
from pydantic import BaseModel
class ResisticsData:
    pass
class D(ResisticsData):
    def __init__(self, metadata, data):
        self.metadata = metadata
        self.data = data
def make(d: D, data=None):
    if data is None:
        data = np.array(d.data)
    return D({}, data)
def bad_same(d: D):
    return make(d, data=d.data)
def bad_slice(d: D):
    return make(d, data=d.data[:, 2:5])
def bad_view(d: D):
    return D({}, np.asarray(d.data).T if d.data.ndim == 2 else d.data.view())
def bad_metadata(d: D):
    return D(d.metadata, np.array(d.data))
class M(BaseModel):
    history: list
def bad_shallow(d: E):
    return D(d.metadata.copy(), np.array(d.data))
def good_deep(d: E):
    return D(d.metadata.copy(deep=True), np.array(d.data))
class E(D):
    metadata: M
def good_default(d: D):
    return make(d)
def good_new(d: D):
    return make(d, data=d.data * 2)
def good_cast(d: D):
    return make(d, data=d.data.astype(float))
def good_picked(d: D, rows: list):
    return make(d, data=np.array(d.data[:, 2:5]))
'''


def selftest_independence():
    ix = mini(SELFTEST_INDEPENDENT)
    fs = [f for q, f in ix.funcs.items() if f.cls is None and f.node.name.startswith(("bad", "good"))]
    got = {f.short for f, _, _ in independence_findings(ix, fs)[0]}
    want = {f.short for f in fs if f.node.name.startswith("bad")}
    if got != want:
        raise AnalysisError(f"independence self-test failed: {sorted(got)} instead of {sorted(want)}")
    return len(fs)


@rule("P01", "results-are-independent",
      "neither the data nor the metadata of the result of a copy, a sub-section or a time-domain or spectral step is the storage of its input or a view of it")
def r_independent(ix, res):
    res.counts["self_test_functions"] = selftest_independence() if ONLY is None else 0
    bad, n, files, notes, fns = independence_findings(ix, list(independent_scope(ix)))
    res.counts["results_examined"] = n
    res.counts["operations_examined"] = len(fns)
    res.undecided += notes
    res.files |= files
    res.functions |= fns
    for f, what, p in bad:
        if f.short == "time.new_time_data" and p != "time_data":
            continue
        res.findings.append(Finding(f"{f.short}|{what}|{p}", f"{f.module.rel}:{f.node.lineno}",
                                    f"{f.short} returns a result whose {what} is that of its argument '{p}': changing one changes the other"))
    if n == 0 and ONLY is None:
        raise AnalysisError("anchor vanished: no operation found whose result should be independent")


def of_history(n):
    """is the changed object a history or the list of its records?"""
    while n.op in ("attr", "idx"):
        if n.op == "attr" and n.args[1] in ("history", "records"):
            return True
        n = n.args[0]
    return False


@rule("P02", "no-foreign-records", "no operation adds to, removes from or replaces the history of an object owned by one of its arguments")
def r_p02(ix, res):
    funcs = [f for f in p01_scope(ix) if known_api(f)]
    bad, n, sites, notes, files, fns = effect_findings(ix, funcs, may_change)
    res.counts["public_operations_analysed"] = n
    res.counts["mutation_sites_examined"] = sites
    res.undecided += notes
    res.files |= files
    res.functions |= fns
    for f, r, m in bad:
        if f.qual.rpartition(".")[2] != "__init__" and (of_history(m.base) or m.kind in ("store to .history", "store to .records")):
            res.findings.append(Finding(f"{f.short}|{r}|{m.func.replace('resistics.', '', 1)}|{m.kind}", f"{m.file}:{m.line}",
                                        f"{f.short} changes the processing history of its argument '{r}': {m.kind} on {show(m.base, 5)[:160]}"))


def known_api(f):
    """Helpers a refactoring may introduce are judged through their callers;
    every process run, data-class and metadata operation is judged itself."""
    if f.cls is not None:
        return True
    return f.short in FUNCTIONS


# module-level operations users call
FUNCTIONS = set("""
common.get_version common.is_file common.assert_file common.is_dir common.assert_dir common.dir_contents common.dir_files common.dir_subdirs
common.is_electric common.is_magnetic common.get_chan_type common.check_chan common.fs_to_string common.array_to_string common.get_record
common.get_history config.get_default_configuration decimate.get_eval_freqs_min decimate.get_eval_freqs_size decimate.get_eval_freqs
gather.get_site_evals_metadata gather.get_site_level_wins gather.get_site_wins letsgo.new letsgo.load letsgo.reload letsgo.run_time_processors
letsgo.run_decimation letsgo.run_windowing letsgo.run_fft letsgo.run_spectra_processors letsgo.run_evals letsgo.run_sensor_calibration
letsgo.run_regression_preparer letsgo.run_solver letsgo.quick_read letsgo.quick_view letsgo.quick_spectra letsgo.quick_tf letsgo.process_time
letsgo.process_time_to_evals letsgo.process_evals_to_tf letsgo.get_solution project.get_calibration_path project.get_meas_time_path
project.get_meas_spectra_path project.get_meas_evals_path project.get_meas_features_path project.get_mask_path project.get_mask_name
project.get_results_path project.get_solution_name sampling.datetime_to_string sampling.datetime_from_string sampling.to_datetime
sampling.to_timestamp sampling.to_timedelta sampling.to_seconds sampling.to_n_samples sampling.check_sample sampling.sample_to_datetime
sampling.samples_to_datetimes sampling.check_from_time sampling.check_to_time sampling.from_time_to_sample sampling.to_time_to_sample
sampling.datetimes_to_samples sampling.datetime_array sampling.datetime_array_estimate time.get_time_metadata time.adjust_time_metadata
time.new_time_data time.serialize_custom_fnc transfunc.get_component_key window.win_duration window.inc_duration window.win_to_datetime
window.datetime_to_win window.get_first_and_last_win window.get_win_starts window.get_win_ends window.get_win_table
""".split())


# --------------------------------------------------------------------------- declared settings
def last(e):
    while isinstance(e, ast.Attribute):
        return e.attr
    return e.id if isinstance(e, ast.Name) else None


class TypeForm(object):
    """Normal form of a field annotation and of a default value"""

    def __init__(self, ix, module):
        self.ix, self.module = ix, module

    def ann(self, e):
        """-> (type, may be None)"""
        if e is None:
            return ("?",), False
        if isinstance(e, ast.Constant):
            if e.value is None:
                return ("None",), True
            if isinstance(e.value, str):
                return self.ann(ast.parse(e.value, mode="eval").body)
            return ("lit", repr(e.value)), False
        if isinstance(e, (ast.Name, ast.Attribute)):
            n = last(e)
            if isinstance(e, ast.Name) and self.module is not None:
                r = self.ix.resolve(self.module, n)
                if isinstance(r, tuple) and r[0] == "assign":
                    v = r[1].assigns.get(r[2])
                    if isinstance(v, (ast.Subscript, ast.Name, ast.Call)):
                        return TypeForm(self.ix, r[1]).ann(v)
            return (self.ALIAS.get(n, n),), False
        if isinstance(e, ast.Subscript):
            h = last(e.value)
            sl = e.slice.value if type(e.slice).__name__ == "Index" else e.slice
            args = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if h == "Optional":
                t, _ = self.ann(args[0])
                return t, True
            if h == "Union":
                ts, no = [], False
                for a in args:
                    t, n = self.ann(a)
                    if t == ("None",):
                        no = True
                    else:
                        ts.append(t)
                        no = no or n
                return (ts[0] if len(ts) == 1 else ("Union",) + tuple(ts)), no
            if h == "ClassVar":
                return ("?",), False
            return ((h or "?").lower(),) + tuple(self.ann(a) for a in args), False
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            l, a = self.ann(e.left)
            r, b = self.ann(e.right)
            if r == ("None",):
                return l, True
            if l == ("None",):
                return r, True
            return ("Union", l, r), a or b
        if isinstance(e, ast.Call):
            n = last(e.func)
            kw = []
            for k in e.keywords:
                if k.arg is None:
                    return ("?",), False
                kw.append((k.arg, repr(self.default(k.value))))
            n = self.CON.get(n, n)
            return (n,) + tuple(sorted(kw)), False
        return ("?",), False

    ALIAS = {"PositiveInt": "conint>0", "PositiveFloat": "confloat>0", "List": "list", "Dict": "dict", "Tuple": "tuple"}
    CON = {}

    def simple(self, t):
        if t == ("conint", ("gt", "('lit', 0)")):
            return ("conint>0",)
        if t == ("confloat", ("gt", "('lit', 0)")):
            return ("confloat>0",)
        return t

    def default(self, e, depth=0):
        if e is None:
            return ("required",)
        try:
            v = ast.literal_eval(e)
            if isinstance(v, float) and v == int(v):
                v = int(v)
            return ("lit", v)
        except (ValueError, TypeError, SyntaxError, OverflowError):
            pass
        if depth > 6:
            return ("?",)
        if isinstance(e, (ast.List, ast.Tuple)):
            return ("seq",) + tuple(self.default(x, depth + 1) for x in e.elts)
        if isinstance(e, ast.Dict) and all(k is not None for k in e.keys):
            return ("map",) + tuple(sorted(((self.default(k, depth + 1), self.default(v, depth + 1)) for k, v in zip(e.keys, e.values)), key=repr))
        if isinstance(e, ast.Lambda):
            b = e.body
            if isinstance(b, ast.Call) and len(b.args) == 1 and not b.keywords and isinstance(b.args[0], ast.Name) and [b.args[0].id] == [p.arg for p in e.args.args]:
                return self.default(b.func, depth + 1)
            return ("?",)
        if isinstance(e, ast.Call):
            n = last(e.func)
            kw = {k.arg: k.value for k in e.keywords if k.arg}
            if n == "Field":
                if "default_factory" in kw:
                    f = kw["default_factory"]
                    if last(f) in ("list", "dict"):
                        return ("lit", [] if last(f) == "list" else {})
                    if isinstance(f, ast.Lambda):
                        return self.default(f.body, depth + 1)
                    return ("call", self.name(f), (), ())
                d = e.args[0] if e.args else kw.get("default")
                if isinstance(d, ast.Constant) and d.value is Ellipsis:
                    return ("required",)
                return self.default(d, depth + 1)
            if n in ("list", "dict") and not e.args and not e.keywords:
                return ("lit", [] if n == "list" else {})
            if any(k.arg is None for k in e.keywords):
                return ("?",)
            return ("call", self.name(e.func), tuple(self.default(a, depth + 1) for a in e.args),
                    tuple(sorted((k, self.default(v, depth + 1)) for k, v in kw.items())))
        if isinstance(e, ast.Name):
            if self.module is not None:
                r = self.ix.resolve(self.module, e.id)
                if isinstance(r, tuple) and r[0] == "assign" and r[1].assigns.get(r[2]) is not None:
                    v = TypeForm(self.ix, r[1]).default(r[1].assigns[r[2]], depth + 1)
                    return v if not has_unknown(v) else ("name", e.id)
            return ("name", e.id)
        if isinstance(e, ast.Attribute):
            return ("name", self.name(e))
        if isinstance(e, ast.UnaryOp) or isinstance(e, ast.BinOp):
            try:
                v = eval(compile(ast.Expression(body=e), "<default>", "eval"), {"__builtins__": {}})   # arithmetic on literals only
                return ("lit", v)
            except Exception:
                return ("?",)
        return ("?",)

    def name(self, e):
        p = []
        while isinstance(e, ast.Attribute):
            p.append(e.attr)
            e = e.value
        if isinstance(e, ast.Name):
            p.append(e.id)
        p = p[::-1]
        return ".".join(p[-2:] if p and p[-1] in ("now", "utcnow") else p[-1:])


def has_unknown(t):
    return t == "?" or (isinstance(t, tuple) and any(has_unknown(x) for x in t))


def declared(path):
    """spec/declared.py -> {class: (props, {field: (annotation, default)})}"""
    out = {}
    for st in ast.parse(open(path).read()).body:
        if isinstance(st, ast.ClassDef):
            d = st.decorator_list[0]
            fs = {}
            for x in st.body:
                if isinstance(x, ast.AnnAssign):
                    fs[x.target.id] = (x.annotation, x.value)
                elif isinstance(x, ast.Assign):
                    fs[x.targets[0].id] = (None, x.value)
            cfg = {y.targets[0].id: y.value for x in st.body if isinstance(x, ast.ClassDef) for y in x.body if isinstance(y, ast.Assign)}
            out[d.args[1].value] = (d.args[0].value.split(), fs, cfg)
    return out


def operations(path):
    """spec/declared.py -> [(props, function, {argument: default})]"""
    out = []
    for st in ast.parse(open(path).read()).body:
        if isinstance(st, ast.FunctionDef):
            d = st.decorator_list[0]
            out.append((d.args[0].value.split(), d.args[1].value, {a.arg: x for a, x in zip(st.args.kwonlyargs, st.args.kw_defaults)}))
    return out


DECLARED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "declared.py")
SKIP_FIELDS = {"file_info"}


def settings_findings(ix, table, prop=None):
    out, und, nf, files, classes = [], [], 0, set(), set()
    for short, (props, _, cfg) in table.items():
        if prop is not None and prop not in props:
            continue
        ci = ix.classes.get("resistics." + short)
        if ci is None:
            und.append(f"class {short} is gone")
            continue
        files.add(ci.module.rel)
        classes.add("resistics." + short)
        have = ci.all_fields()
        want = {}
        for c in reversed(ci.mro()):
            t = table.get(c.qual.replace("resistics.", "", 1))
            if t:
                want.update({f: v for f, v in t[1].items()})
        own = table[short][1]
        for k, v in cfg.items():
            hv = [c.config[k] for c in ci.mro() if k in c.config]
            x, y = TypeForm(ix, ci.module).default(v), TypeForm(ix, ci.module).default(hv[0] if hv else None)
            nf += 1
            if x != y:
                if has_unknown(y):
                    und.append(f"{short}.Config.{k}: not understood")
                else:
                    out.append((ci, "Config." + k, "config", f"{short} is configured with {k} {fmt(y)} instead of {fmt(x)}"))
        for f, (a, d) in want.items():
            if f in SKIP_FIELDS:
                continue
            nf += 1
            if f not in have:
                if f in own:
                    out.append((ci, f, "gone", f"{short} no longer declares '{f}'"))
                continue
            ha, hd, hc = have[f]
            sp, cd = TypeForm(ix, None), TypeForm(ix, hc.module)
            x, y = sp.default(d), cd.default(hd)
            # the reference is written with the names of the package
            if x != y:
                if has_unknown(y) or (y[0] == "name" and x[0] != "name"):
                    und.append(f"{short}.{f}: default not understood")
                else:
                    out.append((ci, f, "default", f"{short}.{f} has the default {fmt(y)} instead of {fmt(x)}"))
            (t, tn), (u, un) = TypeForm(ix, hc.module).ann(a), cd.ann(ha)
            t, u = cd.simple(t), cd.simple(u)
            if ha is None or a is None:
                continue
            if t != u:
                if has_unknown(u) or "DateTimeLike" in repr(t) or any(k == "Field" for k in ([last(hd.func)] if isinstance(hd, ast.Call) else [])):
                    und.append(f"{short}.{f}: declared type not understood")
                else:
                    out.append((ci, f, "type", f"{short}.{f} accepts {fmt(u)} instead of {fmt(t)}"))
    return out, und, nf, files, classes


def operation_findings(ix, prop, res):
    n = 0
    for props, short, args in operations(DECLARED):
        if prop not in props:
            continue
        try:
            f = ix.func(short)
        except AnalysisError:
            res.undecided.append(f"{short} is gone")
            continue
        tf = TypeForm(ix, f.module)
        res.files.add(f.module.rel)
        res.functions.add(f.short)
        for a, d in args.items():
            n += 1
            if a not in f.params + f.kwonly:
                res.undecided.append(f"{short} has no argument '{a}'")
                continue
            x, y = tf.default(d), tf.default(f.defaults.get(a))
            if x != y:
                if has_unknown(y) or y[0] == "name":
                    res.undecided.append(f"{short}({a}): default not understood")
                else:
                    res.findings.append(Finding(f"{short}|{a}", f.loc(), f"the argument '{a}' of {short} has the default {fmt(y)} instead of {fmt(x)}"))
    res.counts["argument_defaults"] = n


def fmt(t):
    if isinstance(t, tuple) and t and t[0] == "lit":
        return repr(t[1])
    if isinstance(t, tuple):
        return t[0] + ("[" + ", ".join(fmt(x) for x in t[1:]) + "]" if len(t) > 1 else "") if t and isinstance(t[0], str) else "(" + ", ".join(fmt(x) for x in t) + ")"
    return str(t)


def settings_rule(prop):
    def run(ix, res):
        out, und, nf, files, classes = settings_findings(ix, declared(DECLARED), prop)
        operation_findings(ix, prop, res)
        if not classes and not res.functions:
            raise AnalysisError("anchor vanished: none of the declared classes found")
        res.counts["fields_compared"] = nf
        res.counts["classes"] = len(classes)
        res.undecided += und
        res.files |= files
        res.functions |= classes
        for ci, f, kind, msg in out:
            res.findings.append(Finding(f"{ci.qual.replace('resistics.', '', 1)}.{f}|{kind}", f"{ci.module.rel}:{ci.node.lineno}", msg))
    return run


for _p in sorted({p for ps, _, _ in declared(DECLARED).values() for p in ps} | {p for ps, _, _ in operations(DECLARED) for p in ps}):
    rule(_p, "declared-settings", "every setting, stored field and optional argument is declared with its documented value type, limits and default")(settings_rule(_p))


# --------------------------------------------------------------------------- derived fields
# fields that are filled in when they are not given: the validator runs for missing values and after the fields it is computed from
DERIVED = {
    "P28": [("calibrate.CalibrationData", "n_samples")],
    "P25": [("common.ResisticsProcess", "name")],
    "P06": [("time.TimeMetadata", "n_chans")],
    "P13": [("decimate.DecimatedMetadata", "n_chans")],
    "P15": [("window.WindowedMetadata", "n_chans")],
    "P17": [("spectra.SpectraMetadata", "n_chans")],
    "P12": [("decimate.DecimationParameters", "dec_increments"), ("decimate.DecimationParameters", "dec_fs")],
    "P10": [("time.ChanMetadata", "chan_type")],
    "P24": [("transfunc.TransferFunction", x) for x in ("name", "cross_chans", "n_out", "n_in", "n_cross")],
}


def validators(ci):
    """(function, fields, flags) of every validator of a class, nearest class first"""
    out = []
    seen = set()
    for c in ci.mro():
        for m in c.methods.values():
            d = m.validator
            if d is None or not isinstance(d, ast.Call) or m.node.name in seen:
                continue
            seen.add(m.node.name)
            if last(d.func) == "root_validator":
                out.append((m, None, {}))
                continue
            fs = [a.value for a in d.args if isinstance(a, ast.Constant)]
            kw = {k.arg: k.value.value for k in d.keywords if k.arg and isinstance(k.value, ast.Constant)}
            out.append((m, fs, kw))
    return out


def needed_fields(f):
    """fields read from the values validated so far, outside any membership guard"""
    if len(f.params) < 3:
        return set()
    v = f.params[2]
    out = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == v:
            sl = x.slice.value if type(x.slice).__name__ == "Index" else x.slice
            if isinstance(sl, ast.Constant) and isinstance(sl.value, str):
                out.add(sl.value)
    return out


def derived_rule(prop):
    def run(ix, res):
        n = 0
        for short, fld in DERIVED[prop]:
            ci = ix.classes.get("resistics." + short)
            if ci is None:
                raise AnalysisError(f"anchor vanished: class {short}")
            res.files.add(ci.module.rel)
            for c in [ci] + ci.all_subs():
                order = list(c.all_fields())
                if fld not in order:
                    res.undecided.append(f"{c.name}.{fld} is not declared")
                    continue
                vs = [v for v in validators(c) if v[1] is None or fld in v[1] or "*" in v[1]]
                if any(v[1] is None for v in vs) or c.find("__init__") is not None:
                    res.undecided.append(f"{c.name}: root validator or constructor")
                    continue
                n += 1
                where = f"{c.module.rel}:{c.node.lineno}"
                key = f"{c.qual.replace('resistics.', '', 1)}.{fld}"
                fire = [v for v in vs if v[2].get("always") or (c.config.get("validate_all") is not None)]
                if not fire:
                    res.findings.append(Finding(key + "|always", where, f"{c.name}.{fld} is no longer filled in when it is not given (no validator for '{fld}' runs for missing values)"))
                    continue
                for f, _, _ in fire:
                    res.functions.add(f.short)
                    late = [x for x in needed_fields(f) if x in order and order.index(x) > order.index(fld)]
                    if late:
                        res.findings.append(Finding(key + "|order", f.loc(), f"{c.name}.{fld} is computed from {late} which is declared, and so validated, after it"))
        res.counts["derived_fields"] = n
    return run


for _p in sorted(DERIVED):
    rule(_p, "derived-fields", "a field that is filled in from others has a validator that runs when the field is not given and after the fields it reads")(derived_rule(_p))


# --------------------------------------------------------------------------- P27: every setting is used
NOT_BEHAVIOUR = ("parameters", "parameters_str", "to_string", "summary", "plot", "validate", "_get_record", "dict", "json", "copy")


def setting_reads(ix, ci, stop):
    """settings of a process on which the results, effects or errors of its public operations depend"""
    from .canon import Canon
    used, whole, fns, notes = set(), [], set(), []
    names = []
    for c in ci.mro():
        if c.name in ("ResisticsProcess", "ResisticsModel", "WriteableMetadata", "Metadata"):
            continue
        for nm, m in c.methods.items():
            if nm not in names and m.kind in ("method", "prop") and not (nm.startswith("_") and not nm.startswith("__")) and nm not in NOT_BEHAVIOUR:
                names.append(nm)
    for nm in names:
        m = ci.find(nm)
        I = Interp(ix, opaque=stop)
        s = I.summarise(m, ci)
        fns.add(m.short)
        terms = []
        for pc, kind, v in s.outcomes:
            terms += [pc, v]
        for e in s.events:
            terms += [conj_(e.pc), e.node]
        notes += s.notes
        try:
            cn = Canon(I)
            terms = [cn.c(t) if isinstance(t, Node) else t for t in terms]
        except Exception:
            notes.append(f"{m.short}: no normal form")
        for t in terms:
            scan(t, used, whole)
    return used, whole, fns, notes


def conj_(pc):
    from .interp import conj
    return conj(pc)


def scan(t, used, whole):
    self_ = N("sym", "self")
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if isinstance(x, (tuple, list)):
            stack += list(x)
            continue
        if not isinstance(x, Node) or id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == "attr" and x.args[0] is self_:
            used.add(x.args[1])
            continue
        if x is self_:
            whole.append(1)
        if x.op in ("call", "method") and any("_get_record" in str(getattr(a, "args", ("",))[0]) for a in x.args[:1] if isinstance(a, Node)):
            continue
        stack += [a for a in x.args if isinstance(a, (Node, tuple, list))]


def stop_records(f):
    return f.qual.rpartition(".")[2] in ("_get_record", "parameters", "parameters_str", "to_string", "summary", "plot") or f.qual == "resistics.common.get_record"


def always_raises(ix, f):
    """the exceptions raised when no call of f returns, else None"""
    body = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    if len(body) > 4 or not body or any(isinstance(x, (ast.For, ast.While, ast.With, ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
        return None
    s = Interp(ix).summarise(f)
    out = [(k, v) for c, k, v in s.outcomes if c is not False and c is not FALSE]
    if not out or any(k != "raise" for k, _ in out):
        return None
    return {v.args[0] for _, v in out if v.op == "raise" and v.args}


def abstract(ix, c):
    """some operation is left to subclasses"""
    for nm in {nm for k in c.mro() for nm in k.methods}:
        if "NotImplementedError" in (always_raises(ix, c.find(nm)) or ()):
            return True
    return False


SELFTEST_P27 = """
class Proc:
    a: float = 1
    b: float = 2
    c: float = 3
    d: float = 4

    def run(self, x):
        y = self.c * x
        if x > self.b:
            raise ValueError("large")
        return self._f(x)

    def _f(self, x):
        return x * self.a
"""


def selftest_settings():
    ix = mini(SELFTEST_P27)
    ci = ix.classes["resistics.m.Proc"]
    used = setting_reads(ix, ci, stop_records)[0]
    if used != {"a", "b"}:
        raise AnalysisError(f"settings analysis self-test failed: {sorted(used)}")


@rule("P27", "every-setting-is-used", "each declared setting of a process reaches a result, an effect or an error of one of the process' operations")
def r_p27(ix, res):
    if ONLY is None:
        selftest_settings()
    base = ix.classes.get("resistics.common.ResisticsProcess")
    if base is None:
        raise AnalysisError("anchor vanished: common.ResisticsProcess")
    n = 0
    for c in base.all_subs():
        if skipped(c.module) or abstract(ix, c) or (c.subs and c.find("run") is None):
            continue
        flds = [f for f in c.all_fields() if f not in ("_types", "name")]
        if not flds:
            continue
        res.files.add(c.module.rel)
        used, whole, fns, notes = setting_reads(ix, c, stop_records)
        res.functions |= fns
        n += len(flds)
        for f in flds:
            if f in used:
                continue
            if notes:
                res.undecided.append(f"{c.name}.{f}: {notes[0]}")
            elif whole:
                res.undecided.append(f"{c.name}.{f}: the process itself is handed on")
            else:
                res.findings.append(Finding(f"{c.qual.replace('resistics.', '', 1)}.{f}", f"{c.module.rel}:{c.node.lineno}", f"the setting {c.name}.{f} has no effect on any operation of {c.name}"))
    res.counts["settings"] = n


def inherited_name(f, p):
    """the argument belongs to an operation declared by another class of the family"""
    if f.cls is None:
        return False
    nm = f.qual.rpartition(".")[2]
    fam = [c for c in f.cls.mro() if c is not f.cls] + f.cls.all_subs()
    return any(nm in c.methods and p in c.methods[nm].params + c.methods[nm].kwonly for c in fam)


@rule("P27", "every-argument-is-used", "each argument of a public operation reaches its result, an effect, a change or an error")
def r_args(ix, res):
    n = 0
    for q, f in sorted(ix.funcs.items()):
        if not in_scope(f) or not public(f) or "<" in q or q.startswith("spec.") or not known_api(f) or f.kind == "class" or skipped(f.module) or always_raises(ix, f) is not None:
            continue
        nm = q.rpartition(".")[2]
        if nm in ("plot", "summary") or nm.startswith("plot_") or not (f.cls is None or f.cls.is_model() or f.cls.name.endswith("Data")):
            continue
        ps = [p for p in f.params + f.kwonly if p not in ("self", "cls") and not inherited_name(f, p)]
        if not ps:
            continue
        n += len(ps)
        I = Interp(ix, opaque=lambda g: g.qual != f.qual and known_api(g) and public(g))
        s = I.summarise(f)
        terms = [t for pc, k, v in s.outcomes for t in (pc, v)] + [t for e in s.events for t in (conj_(e.pc), e.node)]
        try:
            from .canon import Canon
            cn = Canon(I)
            terms = [cn.c(t) if isinstance(t, Node) else t for t in terms]
        except Exception:
            res.undecided.append(f"{f.short}: no normal form")
        syms = set()
        stack, seen = [terms] + [x for o in s.frame_outcomes for x in (o[3].hc, o[3].hf) if o[1] == "ret"], set()
        while stack:
            x = stack.pop()
            if isinstance(x, dict):
                stack += list(x.values())
            elif isinstance(x, (tuple, list)):
                stack += list(x)
            elif isinstance(x, Node) and id(x) not in seen:
                seen.add(id(x))
                if x.op == "sym":
                    syms.add(x.args[0])
                stack += [a for a in x.args if isinstance(a, (Node, tuple, list))]
        res.files.add(f.module.rel)
        res.functions.add(f.short)
        for p in ps:
            if p in syms:
                continue
            if s.notes or any(isinstance(x, (ast.Lambda, ast.FunctionDef)) and x is not f.node for x in ast.walk(f.node)):
                res.undecided.append(f"{f.short}({p}): {s.notes[:1]}")
            else:
                res.findings.append(Finding(f"{f.short}|{p}", f.loc(), f"the argument '{p}' of {f.short} has no effect"))
    res.counts["arguments"] = n


# --------------------------------------------------------------------------- P13: the factors of a decimation multiply to the decimation
def small_int(e):
    return e.value if isinstance(e, ast.Constant) and isinstance(e.value, int) else None


def same(a, b):
    return ast.dump(a) == ast.dump(b)


def divisible(test, n, e):
    """the test 'n is a multiple of e': True, its opposite: False, else None"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        r = divisible(test.operand, n, e)
        return None if r is None else not r
    if isinstance(test, ast.BinOp) and isinstance(test.op, ast.Mod):
        return False if isinstance(test.left, ast.Name) and test.left.id == n and same(test.right, e) else None
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        l, r = test.left, test.comparators[0]
        if small_int(l) is not None:
            l, r = r, l
        if isinstance(l, ast.BinOp) and isinstance(l.op, ast.Mod) and isinstance(l.left, ast.Name) and l.left.id == n and small_int(r) is not None:
            eq = isinstance(test.ops[0], ast.Eq)
            if not eq and not isinstance(test.ops[0], (ast.NotEq, ast.Gt)):
                return None
            if small_int(r) != 0:
                return False if eq else None
            return (eq if same(l.right, e) else False)
    return None


def exceeds(test, n):
    """k for the test 'n > k' (whole numbers), else None"""
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
        return None
    l, o, r = test.left, test.ops[0], test.comparators[0]
    if isinstance(r, ast.Name) and r.id == n and small_int(l) is not None:
        flip = {ast.Lt: ast.Gt, ast.LtE: ast.GtE}.get(type(o))
        if flip is None:
            return None
        l, o, r = r, flip(), l
    if not (isinstance(l, ast.Name) and l.id == n) or small_int(r) is None:
        return None
    if isinstance(o, ast.Gt):
        return small_int(r)
    if isinstance(o, ast.GtE):
        return small_int(r) - 1
    if isinstance(o, ast.NotEq) and small_int(r) == 1:
        return 1
    return None


def factor_findings(f):
    """(findings, undecided) of a function that returns the factors of its argument"""
    out, und = [], []
    ps = [p for p in f.params if p not in ("self", "cls")]
    rets = [x for x in ast.walk(f.node) if isinstance(x, ast.Return)]
    if len(ps) != 1 or not rets or not all(isinstance(x.value, ast.Name) for x in rets) or len({x.value.id for x in rets}) != 1:
        return out, ["not a function that fills and returns one list"]
    n, lst = ps[0], rets[0].value.id
    sites = []                      # (block, position, tests around it, statement)

    def scan_block(b, tests):
        for i, s in enumerate(b):
            sites.append((b, i, tests, s))
            if isinstance(s, (ast.While, ast.If)):
                scan_block(s.body, tests + [(s, s.test)])
                if s.orelse:
                    scan_block(s.orelse, tests + [(s, ast.UnaryOp(ast.Not(), s.test))])
            elif isinstance(s, ast.For):
                scan_block(s.body, tests + [(s, None)])
            elif isinstance(s, (ast.With, ast.Try, ast.FunctionDef)):
                und.append("construct not followed")
    scan_block(f.node.body, [])
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and last(x.func) not in ("append", "range", "int", "sqrt", "isqrt", "abs", "floor", "ceil", "debug", "info", "list", "len"):
            und.append(f"call of {last(x.func)}")
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp)):
            und.append("construct not followed")
    tail = False
    used_division = set()
    for b, i, tests, s in sites:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == lst:
            if s.value.func.attr != "append" or len(s.value.args) != 1:
                und.append(f"the list is changed by {s.value.func.attr}")
                continue
            e = s.value.args[0]
            if isinstance(e, ast.Name) and e.id == n:
                tail = True
                ks = [exceeds(t, n) for _, t in tests if t is not None]
                if len(ks) != 1 or ks[0] is None:
                    und.append("condition of the last factor not understood")
                elif ks[0] > 2:
                    out.append((s, "tail", f"what is left is dropped when it is {ks[0]}"))
                continue
            div = [(j, x) for j, x in enumerate(b) if divides(x, n, e) is not None]
            if not div:
                if any(reduces(x, n) is None for x in b):
                    und.append("reduction of the number not understood")
                else:
                    out.append((s, "division", f"{ast.unparse(e)} is taken as a factor without dividing the number by it"))
                continue
            j, x = div[0]
            used_division.add(id(x))
            if divides(x, n, e) is False:
                out.append((s, "division", f"{ast.unparse(e)} is taken as a factor but the number is divided by something else"))
            if not tests or tests[-1][1] is None:
                out.append((s, "test", f"{ast.unparse(e)} is taken as a factor without testing that it divides the number"))
            else:
                d = divisible(tests[-1][1], n, e)
                if d is None:
                    und.append("test of the factor not understood")
                elif d is False:
                    out.append((s, "test", f"{ast.unparse(e)} is taken as a factor when it need not divide the number"))
        elif isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == lst for t in s.targets):
            if not (isinstance(s.value, ast.List) and not s.value.elts or isinstance(s.value, ast.Call) and last(s.value.func) == "list" and not s.value.args):
                und.append("the list does not start empty")
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == lst:
            und.append("the list is changed by +=")
        elif isinstance(s, ast.For):
            r = s.iter
            if not (isinstance(r, ast.Call) and last(r.func) == "range" and isinstance(s.target, ast.Name)):
                und.append("loop over divisors not understood")
            else:
                lo, st = (small_int(r.args[0]) if len(r.args) > 1 else 0), (small_int(r.args[2]) if len(r.args) > 2 else 1)
                if lo is None or st is None:
                    und.append("range of divisors not understood")
                elif lo > 3 or st > 2 or (st == 2 and lo % 2 == 0):
                    out.append((s, "range", f"possible factors are skipped: range starts at {lo} with step {st}"))
        elif isinstance(s, ast.Return):
            if s is not f.node.body[-1]:
                t = tests[-1][1] if tests else None
                one = isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id == n and (
                    isinstance(t.ops[0], ast.Eq) and small_int(t.comparators[0]) == 1 or isinstance(t.ops[0], ast.Lt) and small_int(t.comparators[0]) == 2
                    or isinstance(t.ops[0], ast.LtE) and small_int(t.comparators[0]) == 1)
                if not one:
                    und.append("early return not understood")
    for b, i, tests, s in sites:
        if isinstance(s, (ast.Assign, ast.AugAssign)) and id(s) not in used_division:
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            if any(isinstance(x, ast.Name) and x.id == n for t in tg for x in ast.walk(t)):
                if reduces(s, n):
                    out.append((s, "lost", "the number is divided without keeping the factor"))
                else:
                    und.append("the number is changed")
    if not tail and not und:
        out.append((f.node, "tail", "what is left after dividing is not among the factors"))
    return out, und


def reduces(s, n):
    """True: divides the number by something; False: leaves it alone; None: changes it otherwise"""
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == n:
        return True if isinstance(s.op, ast.FloorDiv) else None
    if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == n for t in s.targets for x in ast.walk(t)):
        v = s.value
        if isinstance(v, ast.Call) and last(v.func) == "int" and len(v.args) == 1:
            v = v.args[0]
        return True if len(s.targets) == 1 and isinstance(v, ast.BinOp) and isinstance(v.op, (ast.FloorDiv, ast.Div)) and isinstance(v.left, ast.Name) and v.left.id == n else None
    return False


def divides(s, n, e):
    """s divides n by e (True), by something else (False), or does not divide it (None)"""
    if reduces(s, n) is not True:
        return None
    d = s.value if isinstance(s, ast.AugAssign) else (s.value.args[0] if isinstance(s.value, ast.Call) else s.value).right
    return same(d, e)


SELFTEST_P13 = """
def good(n):
    out = []
    while n % 2 == 0:
        out.append(2)
        n //= 2
    for k in range(3, int(n ** 0.5) + 1, 2):
        while not n % k:
            n = n // k
            out.append(k)
    if n > 1:
        out.append(n)
    return out

def bad(n):
    out = []
    while n % 2 == 0:
        out.append(2)
        n //= 2
    for k in range(3, int(n ** 0.5) + 1, 4):
        if n % k == 0:
            out.append(k)
    if n > 3:
        out.append(n)
    return out
"""


def selftest_factors():
    ix = mini(SELFTEST_P13)
    g, b = (factor_findings(ix.funcs["resistics.m." + x]) for x in ("good", "bad"))
    if g != ([], []) or {k for _, k, _ in b[0]} != {"division", "range", "tail"}:
        raise AnalysisError(f"factor analysis self-test failed: {g} {b}")


@rule("P13", "factors-multiply-to-the-decimation", "every factor appended is one the remaining number was divided by, and what remains is appended unless it is 1")
def r_factors(ix, res):
    selftest_factors()
    ci = ix.classes.get("resistics.time.Decimate")
    f = ci and ci.find("_prime_factorisation")
    if f is None:
        res.undecided.append("time.Decimate._prime_factorisation is gone")
        return
    out, und = factor_findings(f)
    res.files.add(f.module.rel)
    res.functions.add(f.short)
    res.counts["statements"] = sum(isinstance(x, ast.stmt) for x in ast.walk(f.node))
    res.undecided += und
    if not und:
        for s, k, msg in out:
            res.findings.append(Finding(f"{f.short}|{k}", f"{f.module.rel}:{s.lineno}", f"{f.short}: {msg}"))
