"""Canonical value terms.

Turns raw gated value-graph terms (interp.py) into a normal form so that two
programs computing the same value get the same term, whatever the statement
order, helper structure, loop style, branch shape or arithmetic spelling:

  * conditions become decision nodes ite(atom, hi, lo), lifted to the top
    and ordered;
  * arithmetic becomes polynomials with exact rational coefficients;
  * loops are binder terms with height-based names, fused, unrolled over
    literal domains, and with loop-invariant decisions lifted out;
  * records, dicts, lists, paths and strings have one constructor form each;
  * synonyms of library functions are mapped to one name.
"""
import ast
from fractions import Fraction
from math import gcd

from .ir import N, Node, const, TRUE, FALSE, NONE, digest, subst, contains, kids, mapargs, walk


class Blowup(Exception):
    pass


BINDERS = {"flatmap": 0, "mcat": 0, "exists": 0, "dflat": 1, "aflat": 1, "msum": 1, "lout": 1, "first": 0, "evmap": 0}

SYN = {
    "numpy.conjugate": "numpy.conj", "numpy.absolute": "numpy.abs", "builtins.abs": "numpy.abs", "math.fabs": "numpy.abs",
    "numpy.fabs": "numpy.abs", "math.floor": "numpy.floor", "math.ceil": "numpy.ceil", "math.sqrt": "numpy.sqrt",
    "math.log": "numpy.log", "math.log2": "numpy.log2", "math.log10": "numpy.log10", "math.exp": "numpy.exp",
    "math.cos": "numpy.cos", "math.sin": "numpy.sin", "math.pi": "numpy.pi", "math.isnan": "numpy.isnan",
    "numpy.amin": "numpy.min", "numpy.amax": "numpy.max", "numpy.product": "numpy.prod", "numpy.around": "numpy.round",
    "numpy.round_": "numpy.round", "numpy.asarray": "numpy.array", "numpy.asanyarray": "numpy.array",
    "numpy.math.floor": "numpy.floor", "builtins.tuple": "builtins.list", "scipy.constants.pi": "numpy.pi",
    "numpy.linalg.norm": "numpy.linalg.norm", "numpy.deg2rad": "numpy.radians", "math.radians": "numpy.radians",
    "numpy.rad2deg": "numpy.degrees", "math.degrees": "numpy.degrees", "math.trunc": "builtins.int",
    "numpy.dtype": "numpy.dtype", "builtins.float64": "numpy.float64", "math.hypot": "numpy.hypot",
    "numpy.float": "builtins.float", "numpy.complex": "builtins.complex", "numpy.int": "builtins.int", "numpy.bool": "builtins.bool",
    "numpy.NaN": "numpy.nan", "numpy.NAN": "numpy.nan", "numpy.infty": "numpy.inf", "numpy.Inf": "numpy.inf",
    "math.inf": "numpy.inf", "math.nan": "numpy.nan",
}
METHOD_FUNC = {
    "mean": "numpy.mean", "sum": "numpy.sum", "min": "numpy.min", "max": "numpy.max", "std": "numpy.std", "var": "numpy.var",
    "conj": "numpy.conj", "conjugate": "numpy.conj", "squeeze": "numpy.squeeze", "any": "numpy.any", "all": "numpy.all",
    "abs": "numpy.abs", "argmin": "numpy.argmin", "argmax": "numpy.argmax", "transpose": "numpy.transpose", "swapaxes": "numpy.swapaxes",
    "cumsum": "numpy.cumsum", "prod": "numpy.prod", "reshape": "numpy.reshape", "argsort": "numpy.argsort",
    "dot": "numpy.dot", "ravel": "numpy.ravel", "searchsorted": "numpy.searchsorted", "repeat": "numpy.repeat",
}
SIG = {
    "numpy.mean": ("a", "axis", "dtype"), "numpy.sum": ("a", "axis", "dtype"), "numpy.min": ("a", "axis"), "numpy.max": ("a", "axis"),
    "numpy.any": ("a", "axis"), "numpy.all": ("a", "axis"), "numpy.argmin": ("a", "axis"), "numpy.argmax": ("a", "axis"),
    "numpy.std": ("a", "axis"), "numpy.var": ("a", "axis"), "numpy.squeeze": ("a", "axis"), "numpy.cumsum": ("a", "axis"),
    "numpy.swapaxes": ("a", "axis1", "axis2"), "numpy.interp": ("x", "xp", "fp", "left", "right"),
    "numpy.zeros": ("shape", "dtype"), "numpy.empty": ("shape", "dtype"), "numpy.ones": ("shape", "dtype"), "numpy.full": ("shape", "fill_value", "dtype"),
    "numpy.linspace": ("start", "stop", "num", "endpoint"), "numpy.searchsorted": ("a", "v", "side"), "numpy.array": ("object", "dtype"),
    "numpy.zeros_like": ("a", "dtype"), "numpy.empty_like": ("a", "dtype"), "numpy.ones_like": ("a", "dtype"), "numpy.full_like": ("a", "fill_value", "dtype"),
    "numpy.stack": ("arrays", "axis"), "numpy.concatenate": ("arrays", "axis"), "numpy.expand_dims": ("a", "axis"),
    "numpy.logspace": ("start", "stop", "num", "endpoint", "base"), "numpy.where": ("condition", "x", "y"),
    "numpy.fft.rfft": ("a", "n", "axis"), "numpy.fft.rfftfreq": ("n", "d"), "scipy.fft.rfftfreq": ("n", "d"), "scipy.fft.rfft": ("x", "n", "axis"),
    "scipy.signal.detrend": ("data", "axis", "type"), "scipy.signal.resample": ("x", "num", "t", "axis"), "scipy.signal.resample_poly": ("x", "up", "down", "axis"),
    "scipy.signal.decimate": ("x", "q", "n", "ftype", "axis", "zero_phase"), "scipy.signal.sosfiltfilt": ("sos", "x", "axis"),
    "scipy.signal.butter": ("N", "Wn", "btype", "analog", "output", "fs"), "scipy.signal.get_window": ("window", "Nx", "fftbins"),
    "scipy.ndimage.gaussian_filter1d": ("input", "sigma", "axis"), "scipy.signal.convolve": ("in1", "in2", "mode"),
    "numpy.lib.stride_tricks.sliding_window_view": ("x", "window_shape", "axis"), "numpy.apply_along_axis": ("func1d", "axis", "arr"),
    "pandas.DataFrame": ("data", "index", "columns", "dtype"), "pandas.Series": ("data", "index", "dtype", "name"),
    "numpy.unique": ("ar",), "numpy.isnan": ("x",), "numpy.flatnonzero": ("a",), "numpy.save": ("file", "arr"), "numpy.load": ("file", "mmap_mode"),
    "numpy.savetxt": ("fname", "X", "fmt", "delimiter"), "numpy.memmap": ("filename", "dtype", "mode", "offset", "shape"), "numpy.fromfile": ("file", "dtype", "count", "sep", "offset"),
    "numpy.loadtxt": ("fname", "dtype"), "builtins.sum": ("iterable", "start"), "numpy.transpose": ("a", "axes"), "numpy.reshape": ("a", "newshape"),
    "scipy.ndimage.uniform_filter1d": ("input", "size", "axis"), "scipy.ndimage.uniform_filter": ("input", "size"), "scipy.ndimage.gaussian_filter": ("input", "sigma"),
    "sklearn.linear_model.RANSACRegressor": ("base_estimator",), "scipy.signal.windows.dpss": ("M", "NW"), "scipy.fft.next_fast_len": ("target", "real"),
    "scipy.signal.sosfilt": ("sos", "x", "axis"), "scipy.signal.filtfilt": ("b", "a", "x", "axis"), "scipy.signal.lfilter": ("b", "a", "x", "axis"),
    "numpy.unwrap": ("p", "discont", "axis"), "numpy.moveaxis": ("a", "source", "destination"), "numpy.repeat": ("a", "repeats", "axis"), "numpy.tile": ("A", "reps"),
    "numpy.diff": ("a", "n", "axis"), "numpy.sort": ("a", "axis"), "numpy.argsort": ("a", "axis"), "numpy.nonzero": ("a",), "numpy.append": ("arr", "values", "axis"),
    "pandas.to_datetime": ("arg",), "pandas.date_range": ("start", "end", "periods", "freq"), "pandas.Timedelta": ("value", "unit"), "pandas.read_csv": ("filepath_or_buffer",),
    "scipy.interpolate.interp1d": ("x", "y", "kind", "axis", "copy", "bounds_error", "fill_value", "assume_sorted"), "numpy.random.normal": ("loc", "scale", "size"),
    "numpy.round": ("a", "decimals"), "builtins.round": ("number", "ndigits"), "numpy.nanmean": ("a", "axis"), "numpy.median": ("a", "axis"),
}
# keyword arguments equal to the library default carry no information
DEFKW = {
    ("numpy.array", "copy"): True, ("numpy.linspace", "endpoint"): True, ("numpy.logspace", "endpoint"): True, ("numpy.logspace", "base"): 10,
    ("numpy.stack", "axis"): 0, ("numpy.concatenate", "axis"): 0, ("numpy.fft.rfft", "axis"): -1, ("scipy.fft.rfft", "axis"): -1,
    ("scipy.signal.detrend", "axis"): -1, ("scipy.signal.detrend", "type"): "linear", ("scipy.signal.resample", "axis"): 0,
    ("scipy.signal.decimate", "axis"): -1, ("scipy.signal.decimate", "zero_phase"): True, ("scipy.signal.get_window", "fftbins"): True,
    ("scipy.signal.sosfiltfilt", "axis"): -1, ("builtins.sum", "start"): 0, ("numpy.searchsorted", "side"): "left",
    ("scipy.interpolate.interp1d", "axis"): -1, ("scipy.interpolate.interp1d", "kind"): "linear", ("scipy.signal.filtfilt", "axis"): -1, ("scipy.signal.lfilter", "axis"): -1,
    ("numpy.argsort", "axis"): -1, ("numpy.diff", "axis"): -1, ("numpy.diff", "n"): 1, ("scipy.signal.resample_poly", "axis"): 0,
    ("scipy.signal.butter", "analog"): False, ("scipy.signal.butter", "btype"): "lowpass", ("scipy.signal.butter", "output"): "ba", ("numpy.round", "decimals"): 0, ("scipy.ndimage.gaussian_filter1d", "axis"): -1,
    ("scipy.ndimage.uniform_filter1d", "axis"): -1, ("numpy.unwrap", "axis"): -1, ("numpy.sort", "axis"): -1, ("scipy.signal.sosfilt", "axis"): -1,
    ("numpy.savetxt", "newline"): "\n", ("numpy.savetxt", "delimiter"): " ", ("numpy.savetxt", "header"): "", ("numpy.savetxt", "footer"): "", ("numpy.savetxt", "fmt"): "%.18e",
    ("numpy.loadtxt", "comments"): "#", ("numpy.loadtxt", "skiprows"): 0, ("numpy.loadtxt", "ndmin"): 0, ("numpy.loadtxt", "unpack"): False,
    ("numpy.load", "allow_pickle"): False, ("numpy.load", "mmap_mode"): None, ("numpy.loadtxt", "delimiter"): None, ("numpy.loadtxt", "max_rows"): None,
    ("scipy.signal.decimate", "ftype"): "iir", ("scipy.signal.resample_poly", "padtype"): "constant", ("scipy.signal.sosfiltfilt", "padtype"): "odd",
    ("scipy.signal.sosfiltfilt", "padlen"): None, ("scipy.signal.detrend", "bp"): 0, ("scipy.signal.detrend", "overwrite_data"): False,
    ("scipy.signal.resample", "window"): None, ("scipy.interpolate.interp1d", "bounds_error"): None, ("scipy.interpolate.interp1d", "assume_sorted"): False,
    ("scipy.ndimage.gaussian_filter1d", "mode"): "reflect", ("scipy.ndimage.gaussian_filter1d", "order"): 0, ("scipy.ndimage.gaussian_filter1d", "truncate"): 4,
    ("scipy.ndimage.gaussian_filter1d", "cval"): 0, ("scipy.ndimage.uniform_filter1d", "mode"): "reflect", ("scipy.ndimage.uniform_filter1d", "origin"): 0,
    ("numpy.lib.stride_tricks.sliding_window_view", "subok"): False, ("numpy.lib.stride_tricks.sliding_window_view", "writeable"): False,
    ("numpy.lib.stride_tricks.sliding_window_view", "axis"): None, ("numpy.fft.rfft", "norm"): "backward", ("scipy.fft.rfft", "norm"): "backward",
    ("scipy.fft.rfft", "overwrite_x"): False, ("numpy.array", "subok"): False, ("numpy.load", "fix_imports"): True, ("numpy.save", "allow_pickle"): True,
    ("numpy.arange", "dtype"): None, ("numpy.interp", "period"): None, ("pandas.date_range", "closed"): None, ("pandas.to_datetime", "utc"): None,
    ("pandas.to_datetime", "errors"): "raise", ("numpy.quantile", "axis"): None, ("json.dumps", "sort_keys"): False, ("json.load", "cls"): None,
    ("builtins.round", "ndigits"): None, ("builtins.open", "mode"): "r", ("numpy.loadtxt", "usecols"): None, ("numpy.loadtxt", "converters"): None,
    ("numpy.fft.rfftfreq", "d"): 1, ("scipy.fft.rfftfreq", "d"): 1, ("numpy.std", "ddof"): 0, ("numpy.var", "ddof"): 0, ("numpy.array", "ndmin"): 0,
    ("numpy.unique", "return_index"): False, ("numpy.unique", "return_counts"): False, ("numpy.unique", "return_inverse"): False,
    ("builtins.sorted", "reverse"): False, ("builtins.sorted", "key"): None, ("builtins.enumerate", "start"): 0, ("builtins.open", "encoding"): None,
    ("pandas.concat", "axis"): 0, ("pandas.concat", "ignore_index"): False, ("pandas.read_csv", "sep"): ",", ("scipy.fft.next_fast_len", "real"): False,
    **{("numpy." + f, "keepdims"): False for f in ("mean", "sum", "min", "max", "any", "all", "std", "var", "prod", "median", "nanmean", "argmin", "argmax")},
    **{("numpy." + f, "order"): "C" for f in ("zeros", "ones", "empty", "full", "reshape", "ravel")},
}
# and those of methods of objects of the libraries
DEFMKW = {("dropna", "axis"): 0, ("dropna", "how"): "any", ("mkdir", "exist_ok"): False, ("mkdir", "parents"): False, ("sort_values", "ascending"): True,
          ("sort_values", "axis"): 0, ("sort_values", "inplace"): False, ("sort_index", "ascending"): True, ("sort_index", "axis"): 0,
          ("sort_index", "inplace"): False, ("dropna", "inplace"): False, ("set_index", "drop"): True, ("set_index", "inplace"): False,
          ("reset_index", "drop"): False, ("reset_index", "inplace"): False, ("split", "sep"): None, ("split", "maxsplit"): -1, ("groupby", "sort"): True,
          ("sort", "reverse"): False, ("sort", "key"): None, ("to_numpy", "copy"): False, ("to_numpy", "dtype"): None, ("isin", "level"): None,
          ("merge", "how"): "inner", ("join", "how"): "left", ("join", "sort"): False, ("read_text", "encoding"): None, ("write_text", "encoding"): None,
          ("round", "decimals"): 0, ("drop", "inplace"): False, ("rename", "inplace"): False,
          ("duplicated", "keep"): "first", ("drop_duplicates", "keep"): "first", ("drop_duplicates", "inplace"): False, ("fillna", "inplace"): False,
          ("append", "ignore_index"): False, ("append", "sort"): False, ("astype", "copy"): True, ("value_counts", "sort"): True, ("flatten", "order"): "C",
          ("ravel", "order"): "C", ("reshape", "order"): "C", ("total_seconds", "axis"): None, ("to_csv", "index"): True, ("to_csv", "sep"): ",",
          ("isoformat", "sep"): "T", ("strftime", "locale"): None, ("sum", "axis"): None, ("join", "on"): None, ("head", "n"): 5}
# the array argument an axis is an axis of
AXIS_OF = {"numpy.fft.rfft": "a", "scipy.fft.rfft": "x", "scipy.signal.detrend": "data", "scipy.signal.resample": "x", "scipy.signal.resample_poly": "x",
           "scipy.signal.decimate": "x", "scipy.signal.sosfiltfilt": "x", "scipy.signal.sosfilt": "x", "scipy.signal.filtfilt": "x", "scipy.signal.lfilter": "x",
           "scipy.ndimage.gaussian_filter1d": "input", "scipy.ndimage.uniform_filter1d": "input", "numpy.unwrap": "p", "numpy.sort": "a", "numpy.argsort": "a",
           "numpy.diff": "a", "numpy.mean": "a", "numpy.sum": "a", "numpy.min": "a", "numpy.max": "a", "numpy.any": "a", "numpy.all": "a", "numpy.argmin": "a",
           "numpy.argmax": "a", "numpy.std": "a", "numpy.var": "a", "numpy.squeeze": "a", "numpy.cumsum": "a", "numpy.swapaxes": "a", "numpy.nanmean": "a",
           "numpy.median": "a", "numpy.repeat": "a", "numpy.append": "arr", "scipy.interpolate.interp1d": "y"}
BTYPES = {"low": "lowpass", "lp": "lowpass", "l": "lowpass", "high": "highpass", "hp": "highpass", "h": "highpass", "band": "bandpass", "pass": "bandpass",
          "bp": "bandpass", "stop": "bandstop", "bands": "bandstop", "bs": "bandstop"}
NONE_DEFAULT_KW = {"axis", "dtype", "left", "right", "n", "fs", "t"}
INT_FUNCS = {"builtins.len", "numpy.floor", "numpy.ceil", "builtins.int", "builtins.round"}
COMM = {"numpy.maximum", "numpy.minimum", "numpy.logical_and", "numpy.logical_or", "numpy.intersect1d", "numpy.union1d"}

# functions of one array applied element by element
ELEMWISE = {"numpy.conj", "numpy.abs", "numpy.angle", "numpy.exp", "numpy.sin", "numpy.cos", "numpy.log10", "numpy.log", "numpy.log2", "numpy.radians", "numpy.degrees", "numpy.sqrt"}
ELLIPSIS = const(Ellipsis)
DTYPES = {"builtins.complex": "numpy.complex128", "builtins.float": "numpy.float64"}

CAP = 6000


def num(n):
    return n.op == "const" and isinstance(n.args[0], (int, float, Fraction)) and not isinstance(n.args[0], bool)


def fr(v):
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return None
        return Fraction(repr(v))
    return Fraction(v)


def cnum(f):
    f = Fraction(f)
    return const(int(f)) if f.denominator == 1 else const(f)


NONNULL_OPS = ("poly", "mk", "inst", "list", "dict", "strcat", "flatmap", "dflat", "path", "aset", "aflat", "lt0", "eq0", "dictof", "dupd", "const")


def nullable(ann):
    """may an annotated value be None?"""
    if isinstance(ann, ast.Constant):
        if isinstance(ann.value, str):
            return "Optional" in ann.value or "None" in ann.value
        return ann.value is None
    return any((isinstance(x, (ast.Name, ast.Attribute)) and (getattr(x, "id", None) or getattr(x, "attr", None)) in ("Optional", "Any"))
               or (isinstance(x, ast.Constant) and x.value is None) for x in ast.walk(ann))


BOOL_METHODS = {"exists", "is_file", "is_dir", "startswith", "endswith", "issubset", "issuperset", "isdisjoint", "is_integer", "isdigit", "isnumeric"}


MASKING = ("numpy.where", "numpy.nonzero", "numpy.argwhere", "numpy.flatnonzero", "numpy.count_nonzero", "numpy.any", "numpy.all")
# sequences whose length a field of the same object states
COUNTS = {"levels_metadata": "n_levels", "dec_factors": "n_levels", "dec_increments": "n_levels", "dec_fs": "n_levels", "chans": "n_chans",
          "chans_metadata": "n_chans", "eval_freqs": "n_levels*per_level", "win_sizes": "n_levels", "olap_sizes": "n_levels", "freqs": "n_freqs", "fs": "n_levels"}
# the extents of the arrays data objects hold
EXTENTS = {"TimeData": (0, ("n_chans", "n_samples")), "DecimatedData": (1, ("n_chans", "n_samples")), "WindowedData": (1, ("n_wins", "n_chans", "win_size")),
           "SpectraData": (1, ("n_wins", "n_chans", "n_freqs"))}
WHOLE_RED = {"numpy.max", "numpy.min", "numpy.mean", "numpy.sum", "numpy.median", "numpy.std", "numpy.var", "numpy.prod"}
# fields that are never negative
QUANTITIES = {"olap_proportion", "min_olap", "min_size", "win_factor", "n_samples", "n_chans", "n_levels", "per_level", "n_wins", "win_size", "olap_size", "fs", "dt",
              "nyquist", "n_freqs", "min_samples", "n_evals", "target_factor", "min_n_wins", "target"}
PROPORTIONS = {"olap_proportion"}
INT_TYPES = ("builtins.int", "numpy.int64", "numpy.int_")


class Canon(object):
    def __init__(self, interp, erase=None):
        self.I = interp
        self.ix = interp.ix
        self.memo = {}
        self.lmemo = {}
        self.count = 0
        self.btypes = {}
        self.erase = erase

    # ------------------------------------------------------------ types
    def ty(self, n):
        o = n.op
        if o == "mk":
            return ("cls", n.args[0])
        if o == "poly":
            return ("prim", "int") if self.isint(n) else ("prim", "float")
        if o == "ite":
            return self.ty(n.args[1]) or self.ty(n.args[2])
        if o == "elem" and n in self.btypes:
            return self.btypes[n]
        if o == "strcat" or o == "seqmul" and any(x.op == "const" and isinstance(x.args[0], str) for x in n.args):
            return ("prim", "str")
        if o in ("keys",):
            return ("list", None)
        if o == "iv":
            return ("prim", "int")
        try:
            return self.I.typeof(n)
        except Exception:
            return None

    def isstr(self, n):
        return self.ty(n) == ("prim", "str")

    def islist(self, n):
        t = self.ty(n)
        return n.op in ("list", "flatmap") or bool(t and t[0] in ("list", "tuple", "coll"))

    def isarr(self, n):
        return self.ty(n) == ("ndarray",)

    def isint(self, n):
        o = n.op
        if o == "const":
            v = n.args[0]
            return isinstance(v, int) and not isinstance(v, bool) or (isinstance(v, Fraction) and v.denominator == 1)
        if o == "poly":
            for mono, c in n.args[0]:
                if c.denominator != 1:
                    return False
                for a, p in mono:
                    if p < 0 or not self.isint(a):
                        return False
            return True
        if o == "iv":
            return True
        if o == "call" and a_glob(n) in INT_FUNCS:
            return True
        if o in ("mod", "pow"):
            return all(self.isint(x) for x in n.args) and (o == "mod")
        if o == "ite":
            return self.isint(n.args[1]) and self.isint(n.args[2])
        if o == "msum":
            return self.isint(n.args[0]) and self.isint(n.args[4])
        return self.ty(n) == ("prim", "int")

    # ------------------------------------------------------------ ite algebra
    def mk(self, t, hi, lo):
        if hi is lo:
            return hi
        if t.op == "lt0" and t.args[1] and self.norounds(t, hi, lo):
            return lo
        if t.op == "truth" and self.whole(t.args[0], hi, lo):
            return lo
        self.count += 1
        if self.count > 400000:
            raise Blowup("size")
        return N("ite", t, hi, lo)

    def whole(self, x, hi, lo):
        """is hi, which stands where x is a whole number, what lo is then, because
        rounding leaves whole numbers alone?"""
        if x.op != "method" or x.args[0] != "is_integer":
            return False
        x = x.args[1]
        sub = {}
        for y in walk(lo):
            if y.op == "call" and a_glob(y) in ("numpy.floor", "numpy.ceil", "builtins.round", "builtins.int", "numpy.round") and len(y.args[1]) + len(y.args[2]) == 1:
                z = self.sub(y.args[1][0] if y.args[1] else y.args[2][0][1], x)
                if self.isint(z) or self.isint(self.add(z, self.add(x, x))):
                    sub[y] = self.add(x, z)
        if not sub:
            return False
        plain = lambda z: self.c(subst(z, {y: y.args[1][0] for y in walk(z) if y.op == "call" and a_glob(y) == "builtins.int" and len(y.args[1]) == 1}))
        return plain(self.c(subst(lo, sub))) is plain(hi)

    def norounds(self, t, hi, lo):
        """is hi, which stands where a count is zero, what lo is then, because the
        loops over that count make no rounds?"""
        m = self.topoly(t.args[0])
        if len(m) != 2 or m.get(()) != -1 or hi in (TRUE, FALSE, NONE):
            return False
        (k, c), = [x for x in m.items() if x[0]]
        if c != 1 or len(k) != 1 or k[0][1] != 1 or a_glob(k[0][0]) != "builtins.len":
            return False
        sub = {}
        for x in walk(lo):
            if x.op in ("lout", "msum", "aflat", "dflat") and not (x.op == "lout" and x.args[4].op != "cv"):
                d = x.args[2]
                if d.args[0] is const("n") and d.args[1] is k[0][0]:
                    i = x.args[0]
                    if x.op == "lout":
                        i = next((p[1] for p in x.args[5] if p[0] == x.args[4].args[1]), None)
                    if i is not None:
                        sub[x] = i
        return bool(sub) and self.c(subst(lo, sub)) is self.c(hi)

    def lift(self, f, args, memo=None):
        tops = [a.args[0] for a in args if isinstance(a, Node) and a.op == "ite"]
        if not tops:
            return f(*args)
        if memo is None:
            memo = {}
        key = tuple(args)
        r = memo.get(key)
        if r is not None:
            return r
        if len(memo) > CAP:
            raise Blowup("lift")
        t = min(tops, key=digest)
        hi = self.lift(f, [a.args[1] if isinstance(a, Node) and a.op == "ite" and a.args[0] is t else a for a in args], memo)
        lo = self.lift(f, [a.args[2] if isinstance(a, Node) and a.op == "ite" and a.args[0] is t else a for a in args], memo)
        r = self.ite3t(t, hi, lo)
        memo[key] = r
        return r

    def top(self, n):
        return n.args[0] if n.op == "ite" else None

    def ite3t(self, t, hi, lo):
        if hi is lo:
            return hi
        dt = digest(t)
        for x in (hi, lo):
            if x.op == "ite" and digest(x.args[0]) <= dt:
                return self.ite3(self.mk(t, TRUE, FALSE), hi, lo)
        return self.mk(t, hi, lo)

    def ite3(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if c.op != "ite":
            c = self.boolof(c)
            if c.op != "ite":
                return a if c is TRUE else b
        if a is TRUE and b is FALSE:
            return c
        key = (c, a, b)
        r = self.lmemo.get(key)
        if r is not None:
            return r
        tops = [c.args[0]]
        if a.op == "ite":
            tops.append(a.args[0])
        if b.op == "ite":
            tops.append(b.args[0])
        t = min(tops, key=digest)
        co = lambda n, k: n.args[k] if n.op == "ite" and n.args[0] is t else n
        hi = self.ite3(co(c, 1), co(a, 1), co(b, 1))
        lo = self.ite3(co(c, 2), co(a, 2), co(b, 2))
        r = self.mk(t, hi, lo)
        self.lmemo[key] = r
        return r

    def boolof(self, n):
        """canonical value -> canonical boolean (decision over atoms)"""
        if n is TRUE or n is FALSE:
            return n
        if n.op == "ite":
            return self.lift(self.boolof1, [n])
        return self.boolof1(n)

    def boolof1(self, n):
        if n.op == "const":
            return TRUE if n.args[0] else FALSE
        if n.op in ("lt0", "eq0", "isnone", "in", "isinstance", "truth", "exists", "throws", "is", "eqv"):
            return self.mk(n, TRUE, FALSE)
        return self.truth(n)

    def bnot(self, c):
        return self.ite3(c, FALSE, TRUE)

    def band(self, a, b):
        return self.ite3(a, b, FALSE)

    def bor(self, a, b):
        return self.ite3(a, TRUE, b)

    def atom(self, n):
        return self.mk(n, TRUE, FALSE)

    # ------------------------------------------------------------ entry
    def c(self, n):
        r = self.memo.get(n)
        if r is not None:
            return r
        m = getattr(self, "c_" + n.op, None)
        if m is None:
            na = mapargs(n.args, self.c)
            r = self.lift_tuple(n.op, na)
        else:
            r = m(n)
        if n.op in ("attr", "method", "call", "idx", "sym"):
            r = self.boolify(r) if r.op != "ite" else self.lift(self.boolify, [r])
        self.memo[n] = r
        return r

    def boolify(self, x):
        """a value known to be a truth value is its two cases"""
        if x.op == "method":
            if x.args[0] in BOOL_METHODS:
                return self.atom(N("truth", x))
        elif x.op in ("attr", "idx", "sym", "call") and self.ty(x) == ("prim", "bool"):
            return self.atom(N("truth", x))
        return x

    def lift_tuple(self, op, na, build=None):
        """rebuild op with (nested) canonical args, lifting decisions"""
        flat = []

        def fl(a):
            if isinstance(a, Node):
                flat.append(a)
            elif isinstance(a, tuple):
                for x in a:
                    fl(x)

        fl(na)

        def rb(*xs):
            it = iter(xs)

            def r(a):
                if isinstance(a, Node):
                    return next(it)
                if isinstance(a, tuple):
                    return tuple(r(x) for x in a)
                return a

            args = tuple(r(a) for a in na)
            return build(*args) if build else N(op, *args)

        return self.lift(rb, flat)

    # leaves
    def c_const(self, n):
        v = n.args[0]
        if isinstance(v, float):
            f = fr(v)
            if f is not None:
                return cnum(f)
        if isinstance(v, Fraction):
            return cnum(v)
        return n

    def _leaf(self, n):
        return n

    c_sym = c_elem = c_iv = c_cv = c_func = c_vfunc = c_cls = c_mod = c_raise = c_undef = c_cyc = c_del = c_bvv = _leaf

    def c_glob(self, n):
        d = SYN.get(n.args[0], n.args[0])
        if d == "numpy.newaxis":
            return NONE
        return N("glob", d)

    def c_unknown(self, n):
        return n

    def c_dc(self, n):
        return self.c(n.args[0])

    c_mcopy = c_dc

    # booleans
    def c_phi(self, n):
        c, a, b = n.args
        if a.op == "undef":
            return self.c(b)
        if b.op == "undef":
            return self.c(a)
        return self.ite3(self.b(c), self.c(a), self.c(b))

    c_ite = c_phi

    def b(self, n):
        return self.boolof(self.c(n))

    def c_and(self, n):
        a = self.b(n.args[0])
        if a is FALSE:
            return FALSE
        return self.band(a, self.b(n.args[1]))

    def c_or(self, n):
        a = self.b(n.args[0])
        if a is TRUE:
            return TRUE
        return self.bor(a, self.b(n.args[1]))

    def c_not(self, n):
        return self.bnot(self.b(n.args[0]))

    def c_cmp(self, n):
        op, a, b = n.args
        return self.lift(lambda x, y: self.cmp(op, x, y), [self.c(a), self.c(b)])

    def c_lt0(self, n):
        p = self.c(n.args[0])
        return self.lift(lambda x: self.lt0(x, n.args[1] if len(n.args) > 1 else None), [p])

    def c_eq0(self, n):
        return self.lift(lambda x: self.eq0(x, n.args[1] if len(n.args) > 1 else None), [self.c(n.args[0])])

    def c_isnone(self, n):
        return self.lift(self.isnone, [self.c(n.args[0])])

    def c_truth(self, n):
        return self.boolof(self.c(n.args[0]))

    def c_in(self, n):
        return self.lift(self.fin, [self.c(n.args[0]), self.c(n.args[1])])

    def c_is(self, n):
        return self.cmp("is", *[self.c(x) for x in n.args])

    def c_eqv(self, n):
        return self.lift(lambda a, b: self.cmp("==", a, b), [self.c(n.args[0]), self.c(n.args[1])])

    def c_isinstance(self, n):
        def f(x, t):
            if t.op == "glob" and x.op == "const":
                k = t.args[0].split(".")[-1]
                v = x.args[0]
                if k in ("str", "int", "float", "bool", "list", "dict", "tuple"):
                    return TRUE if type(v).__name__ == k or (k == "int" and isinstance(v, bool)) else FALSE
            if t.op == "glob" and t.args[0] in ("pathlib.Path", "os.PathLike") and self.spelled_path(x):
                return self.bnot(self.atom(N("isinstance", x, N("glob", "builtins.str"))))
            return self.atom(N("isinstance", x, t))

        return self.lift(f, [self.c(n.args[0]), self.c(n.args[1])])

    THROWY_BUILTIN = {"builtins.int", "builtins.float", "builtins.open", "builtins.next"}

    def c_throws(self, n):
        names = n.args[1]
        r = FALSE
        for x in n.args[0]:
            g = TRUE
            while x.op == "gated":              # in one case only
                g = self.band(g, self.b(x.args[0]))
                x = x.args[1]
            if x.op == "idx":                   # a mapping without the key
                if "KeyError" in names or "LookupError" in names:
                    r = self.bor(r, self.band(g, self.bnot(self.lift(lambda k, m: self.fin(k, m), [self.c(x.args[1]), self.c(x.args[0])]))))
            elif self.throwy(x):
                r = self.bor(r, self.band(g, self.lift(lambda y: self.throws1(y, names), [self.c(x)])))
        return r

    def throws1(self, y, names):
        if y.op == "method" and y.args[0] == "index" and len(y.args[2]) == 1 and self.islist(y.args[1]):
            return self.bnot(self.fin(y.args[2][0], y.args[1]))
        if y.op == "raise" and (y.args[0] in names or "Exception" in names):
            return TRUE
        return self.atom(N("throws", (y,), names))

    def throwy(self, x):
        if x.op == "new" and not x.args[1] and x.args[2] is NONE or x.op == "call" and x.args[0].op == "cls" and not x.args[1] and not x.args[2]:
            return False                        # a process with its default parameters
        if x.op == "parsed":
            return True
        if x.op == "call":
            g = a_glob(x)
            if g is None:
                return True
            if g.startswith(("numpy.load", "numpy.fromfile", "numpy.memmap", "pandas.read", "json.", "numpy.genfromtxt")):
                return True
            if g.startswith(("numpy.", "scipy.", "math.", "typing.", "pandas.")):
                return False
            if g.startswith("builtins."):
                return g in self.THROWY_BUILTIN
            return True
        if x.op == "method":
            return x.args[0] in ("open", "read_text", "mkdir", "read", "strptime", "index", "unlink", "readlines")
        return True

    def isnone(self, a):
        if a is NONE:
            return TRUE
        if a.op in NONNULL_OPS or self.nonnull(a):
            return FALSE
        return self.atom(N("isnone", a))

    def truth(self, x):
        if x.op == "const":
            return TRUE if x.args[0] else FALSE
        if x.op in ("mk", "inst"):
            return TRUE
        if x.op in ("list", "dict"):
            if not any(k.op == "spread" for k in (x.args if x.op == "list" else ())):
                return TRUE if (x.args if x.op == "list" else x.args[0]) else FALSE
        t = self.ty(x)
        if t:
            if t[0] in ("list", "dict", "coll") or x.op in ("list", "flatmap", "dflat"):
                return self.lt0(self.neg(self.flen(x)), True)
            if t == ("prim", "int") or t == ("prim", "float"):
                return self.bnot(self.eq0(x))
            if t[0] == "cls":
                c = self.ix.classes.get(t[1])
                if c is not None and c.find("__len__") is None and c.find("__bool__") is None:
                    return self.bnot(self.isnone(x))
            if t[0] == "ext" and ("Path" in t[1] or "time" in t[1].lower()):
                return self.bnot(self.isnone(x))
        if x.op in ("poly", "mod"):
            return self.bnot(self.eq0(x))
        if x.op == "call" and a_glob(x) == "builtins.len":
            return self.bnot(self.eq0(x, True))
        if x.op == "call" and a_glob(x) == "builtins.bool" and len(x.args[1]) == 1:
            return self.boolof(x.args[1][0])
        if x.op in ("lt0", "eq0", "isnone", "in", "isinstance", "exists", "throws", "is", "eqv"):
            return self.atom(x)
        if x.op == "iv":
            return self.bnot(self.eq0(x, True))
        return self.atom(N("truth", x))

    def numericish(self, n):
        if n.op in ("poly", "iv", "mod", "pow", "inv") or num(n):
            return True
        t = self.ty(n)
        if t and t[0] == "prim" and t[1] in ("int", "float"):
            return True
        return False

    def cmp(self, op, a, b):
        if op == "is":
            if b is NONE:
                return self.isnone(a)
            if a is NONE:
                return self.isnone(b)
            if b is TRUE:
                return self.boolof(a)
            if b is FALSE:
                return self.bnot(self.boolof(a))
            op = "=="
        if op == "in":
            return self.fin(a, b)
        if op == "<":
            return self.lt0(self.sub(a, b))
        # ==
        if a is b:
            return TRUE
        if a is NONE or b is NONE:
            return self.isnone(b if a is NONE else a)
        if a.op == "const" and b.op == "const":
            if num(a) and num(b):
                return TRUE if fr(a.args[0]) == fr(b.args[0]) else FALSE
            return TRUE if a.args[0] == b.args[0] and type(a.args[0]) == type(b.args[0]) else FALSE
        for x, y in ((a, b), (b, a)):
            if x is TRUE and (self.ty(y) == ("prim", "bool") or y.op == "truth"):
                return self.boolof(y)
            if x is FALSE and (self.ty(y) == ("prim", "bool") or y.op == "truth"):
                return self.bnot(self.boolof(y))
            if x is const("") and self.isstr(y):
                return self.bnot(self.truth(y))
            if x.op == "list" and not x.args and self.islist(y):
                return self.eq0(self.flen(y), True)
        seqs = ("list", "dict", "flatmap", "dflat", "strcat", "path", "mk", "inst", "glob", "cls", "func", "const")
        if a.op in seqs or b.op in seqs:
            if not (num(a) or num(b)):
                x, y = sorted((a, b), key=digest)
                return self.atom(N("eqv", x, y))
        if not (self.numericish(a) or self.numericish(b) or num(a) or num(b)):
            x, y = sorted((a, b), key=digest)
            return self.atom(N("eqv", x, y))
        return self.eq0(self.sub(a, b))

    def lt0(self, p, isint=None):
        if num(p):
            return TRUE if fr(p.args[0]) < 0 else FALSE
        if isint is None:
            isint = self.isint(p)
        p = self.undur(p)
        m = self.topoly(p)
        cs = [c for mono, c in m.items() if mono]
        if not cs:                       # no number that can be ordered
            return self.atom(N("lt0", p, False))
        lead = self.leadmono(m)
        if isint:
            # integer: make the leading coefficient positive
            g = self.gcd_of(cs)
            c0 = m.get((), Fraction(0))
            if m[lead] < 0:
                # p < 0  <=>  not(-p-1 < 0)
                q = {k: -v for k, v in m.items()}
                q[()] = q.get((), Fraction(0)) - 1
                if q[()] == 0:
                    del q[()]
                r = self.lt_norm_int(q)
                return self.bnot(r) if not isinstance(r, bool) else (FALSE if r else TRUE)
            return self.lt_norm_int(m)
        k = abs(m[lead])
        m = {a: c / k for a, c in m.items()}
        neg1 = self.nonneg_simple(m)
        if neg1 is not None:
            return neg1
        return self.atom(N("lt0", self.frompoly(m), False))

    def undur(self, p):
        """sign of a duration's total is the sign of the duration"""
        m = self.topoly(p)
        if len(m) == 1:
            (k, c), = m.items()
            if len(k) == 1 and k[0][1] == 1 and k[0][0].op == "method" and k[0][0].args[0] in ("total_nanoseconds", "total_seconds"):
                return self.mul(cnum(c), k[0][0].args[1])
        return p

    def nonneg_simple(self, m):
        # x - y where both sides provably make it constant: left to the comparison stage
        return None

    def lt_norm_int(self, m):
        cs = [c for mono, c in m.items() if mono]
        g = self.gcd_of(cs)
        if g != 1:
            c0 = m.get((), Fraction(0))
            # g*q + c0 < 0 <=> q < -c0/g <=> q <= ceil(-c0/g)-1 <=> q - ceil(-c0/g) < 0
            b = -c0 / g
            cb = -((-b.numerator) // b.denominator)
            m = {k: v / g for k, v in m.items() if k}
            if cb:
                m[()] = Fraction(-cb)
        # lengths are never negative
        nz = [k for k in m if k]
        if len(nz) == 1 and m[nz[0]] == 1 and len(nz[0]) == 1 and nz[0][0][1] == 1 and self.nonneg(nz[0][0][0]):
            if m.get((), Fraction(0)) >= 0:
                return FALSE
        return self.atom(N("lt0", self.frompoly(m), True))

    def nonneg(self, a):
        return a.op == "iv" or (a.op == "call" and a_glob(a) == "builtins.len")

    def quantity(self, p):
        """an amount made of sizes, counts and proportions, which is not negative"""
        return self.sense(p) == 1

    def sense(self, p, depth=0):
        """1: never negative, -1: never positive, None: not known"""
        if depth > 8:
            return None
        go = lambda x: self.sense(x, depth + 1)
        if num(p):
            return 1 if fr(p.args[0]) >= 0 else -1
        if p.op == "inv":
            return go(p.args[0])
        if p.op == "call" and a_glob(p) in ("numpy.floor", "builtins.int") and len(p.args[1]) == 1 and not p.args[2]:
            return go(p.args[1][0])
        if p.op == "attr":
            return 1 if p.args[1] in QUANTITIES else None
        if p.op == "ite":
            l, r = go(p.args[1]), go(p.args[2])
            return l if l == r else None
        if p.op == "call" and a_glob(p) == "numpy.abs" or self.nonneg(p):
            return 1
        if p.op == "poly":
            m = self.topoly(p)
            shares = sorted({x for mono in m for x, _ in mono if x.op == "attr" and x.args[1] in PROPORTIONS}, key=digest)
            if len(shares) > 2 or any(e != 1 for mono in m for x, e in mono if x in shares):
                return None
            signs = set()
            for bits in range(1 << len(shares)):
                # linear in each proportion, so the ends decide
                at = {}
                for mono, c in m.items():
                    if any(x in shares and not (bits >> shares.index(x)) & 1 for x, _ in mono):
                        continue
                    q = tuple((x, e) for x, e in mono if x not in shares)
                    at[q] = at.get(q, 0) + c
                for mono, c in at.items():
                    s = [go(x) for x, _ in mono]
                    if c == 0:
                        continue
                    if None in s:
                        return None
                    k = 1 if c > 0 else -1
                    for (x, e), y in zip(mono, s):
                        k *= y if e % 2 else 1
                    signs.add(k)
            return signs.pop() if len(signs) == 1 else None
        return None

    def gcd_of(self, cs):
        den = 1
        for c in cs:
            den = den * c.denominator // gcd(den, c.denominator)
        g = 0
        for c in cs:
            g = gcd(g, abs(int(c * den)))
        return Fraction(g, den) if g else Fraction(1)

    def leadmono(self, m):
        ks = [k for k in m if k]
        return min(ks, key=lambda mono: tuple((digest(a), p) for a, p in mono))

    def eq0(self, p, isint=None):
        if num(p):
            return TRUE if fr(p.args[0]) == 0 else FALSE
        if isint is None:
            isint = self.isint(p)
        p = self.undur(p)
        m = self.topoly(p)
        if not any(m):
            return self.atom(N("eq0", p, False))
        lead = self.leadmono(m)
        k = m[lead]
        if isint:
            g = self.gcd_of([c for mono, c in m.items() if mono])
            k = g if k > 0 else -g
        m = {a: c / k for a, c in m.items()}
        if isint and m.get((), Fraction(0)).denominator != 1:
            return FALSE
        nz = [q for q in m if q]
        if isint and len(nz) == 1 and len(nz[0]) == 1 and nz[0][0][1] == 1 and self.nonneg(nz[0][0][0]):
            c0 = m.get((), Fraction(0))
            if c0 > 0:
                return FALSE
            if c0 == 0:
                return self.atom(N("lt0", self.frompoly({nz[0]: Fraction(1), (): Fraction(-1)}), True))
        return self.atom(N("eq0", self.frompoly(m), bool(isint)))

    def fin(self, a, b):
        if a.op == "idx" and a.args[0] is b and (a.args[1].op == "iv" or a.args[1].op == "const" and self.islist(b)):
            return TRUE                    # an element met while iterating is an element
        if b.op == "keys":
            if a.op == "elem":
                return self.atom(N("in", a, b.args[0])) if not self.elem_of(a, b) else TRUE
            b = b.args[0]
        if b.op == "call" and a_glob(b) in ("builtins.list", "builtins.set", "builtins.sorted") and len(b.args[1]) == 1:
            return self.fin(a, b.args[1][0])
        if b.op == "setof":
            return self.fin(a, b.args[0])
        if b.op == "list" and len(b.args) <= 12 and not any(x.op == "spread" for x in b.args):
            r = FALSE
            for x in b.args:
                r = self.bor(r, self.cmp("==", a, x))
            return r
        if b.op == "dict" and all(k.op == "const" for k, v in b.args[0]):
            r = FALSE
            for k, v in b.args[0]:
                r = self.bor(r, self.cmp("==", a, k))
            return r
        if b.op == "dupd":
            r = self.fin(a, b.args[0])
            for k, v in b.args[1]:
                e = self.cmp("==", a, k)
                r = self.band(r, self.bnot(e)) if v.op == "del" else self.bor(r, e)
            return r
        if b.op == "call" and a_glob(b) == "builtins.range" and len(b.args[1]) in (1, 2) and not b.args[2]:
            r = b.args[1]
            lo, hi = (const(0), r[0]) if len(r) == 1 else r
            return self.band(self.bnot(self.lt0(self.sub(a, lo), True)), self.lt0(self.sub(a, hi), True))
        if b.op == "flatmap":
            nm, dom, E, y, s = b.args
            if not s and E is FALSE:
                c = self.any_in(y, a)
                if c is not None:
                    return self.binder_canon("exists", NONE, nm, dom, E, (c,), ())
        return self.atom(N("in", a, b))

    def elem_of(self, a, b):
        info = self.I.loopinfo.get(a.args[0])
        return False

    def spelled_path(self, x):
        """an argument that is a path or the text of one"""
        return x.op == "sym" and x.args[0] in getattr(self.I, "pathstr", ())

    def nonnull(self, x, depth=0):
        """a computed value that cannot be None"""
        o = x.op
        if depth > 8:
            return False
        if o == "sym":
            return x.args[0] in getattr(self.I, "given", ())
        if o == "call":
            f = x.args[0]
            if f.op == "glob":
                d = f.args[0]
                return d.startswith(("numpy.", "scipy.", "pandas.")) or d in ("builtins.len", "builtins.int", "builtins.float", "builtins.str", "builtins.list",
                                                                              "builtins.sorted", "builtins.dict", "builtins.round", "builtins.abs", "pathlib.Path")
            if f.op in ("func", "vfunc"):
                fi = self.ix.funcs.get(f.args[0])
                return fi is not None and fi.node.returns is not None and self.ty(x) is not None and not nullable(fi.node.returns)
            return False
        if o == "method":
            return x.args[0] in ("astype", "copy", "transpose", "reshape", "flatten", "squeeze", "isoformat", "strftime", "lower", "upper", "strip", "replace")
        if o == "idx" and x.args[0].op == "attr":
            # an element of a mapping or list a model declares
            t, b = self.ty(x), self.ty(x.args[0].args[0])
            c = self.ix.classes.get(b[1]) if b and b[0] == "cls" else None
            if t and t[0] == "cls" and c is not None and c.field(x.args[0].args[1]) is not None:
                fa = c.field(x.args[0].args[1])[0]
                if fa is not None and isinstance(fa, ast.Subscript) and not nullable(fa.slice):
                    return True
        if o == "idx":
            return x.args[1].op == "slice" or (x.args[1].op == "list" and any(y.op == "slice" for y in x.args[1].args))
        if o in ("lout", "aset", "aflat", "parsed", "fromdict", "flatmap", "msum", "setof", "mod", "pow", "inv"):
            if o == "lout":
                init, lid, dom, E, y, sm = x.args
                return self.nonnull(init, depth + 1) and all(self.nn_leaves(t, lid, depth) for t in (y,) + tuple(q[2] for q in sm))
            return True
        if o == "attr":
            t = self.ty(x)
            b = self.ty(x.args[0])
            c = self.ix.classes.get(b[1]) if b and b[0] == "cls" else None
            if t and t[0] == "cls" and c is not None and c.field(x.args[1]) is not None:
                fa = c.field(x.args[1])[0]
                return fa is not None and not nullable(fa)
            # array held by a plain container (declared non-optional by its constructor)
            return bool(t and t[0] == "ndarray" and c is not None and c.field(x.args[1]) is None)
        return o in ("iv",)

    def nn_leaves(self, t, lid, depth):
        if t.op == "ite":
            return self.nn_leaves(t.args[1], lid, depth) and self.nn_leaves(t.args[2], lid, depth)
        return (t.op == "cv" and t.args[0] == lid) or self.isnone0(t, depth + 1)

    def isnone0(self, t, depth):
        return t.op in NONNULL_OPS or self.nonnull(t, depth)

    def any_in(self, y, a):
        if y.op == "list" and not any(x.op == "spread" for x in y.args):
            r = FALSE
            for x in y.args:
                r = self.bor(r, self.cmp("==", a, x))
            return r
        if y.op == "ite":
            h, l = self.any_in(y.args[1], a), self.any_in(y.args[2], a)
            if h is None or l is None:
                return None
            return self.ite3(self.atom(y.args[0]), h, l)
        return None

    # ------------------------------------------------------------ arithmetic
    def topoly(self, n):
        if n.op == "poly":
            return dict(n.args[0])
        if num(n):
            f = fr(n.args[0])
            if f is None:
                return {((n, 1),): Fraction(1)}
            return {(): f} if f != 0 else {}
        return {((n, 1),): Fraction(1)}

    def frompoly(self, m):
        m = {k: v for k, v in m.items() if v != 0}
        if not m:
            return const(0)
        if len(m) == 1:
            (k, v), = m.items()
            if k == ():
                return cnum(v)
            if v == 1 and len(k) == 1 and k[0][1] == 1:
                return k[0][0]
        items = sorted(m.items(), key=lambda kv: tuple((digest(a), p) for a, p in kv[0]))
        return N("poly", tuple(items))

    def add(self, a, b, k=1):
        m = self.topoly(a)
        for mono, c in self.topoly(b).items():
            m[mono] = m.get(mono, Fraction(0)) + k * c
        if len(m) > 1 and any(a_glob(x) == "numpy.cos" for mono in m for x, _ in mono):
            m = self.euler(m)
        if len(m) > 1 and any(p == 2 and x.op == "attr" and x.args[1] == "imag" for mono in m for x, p in mono):
            m = self.magnitude(m)
        return self.halves(self.frompoly(m))

    def parity(self, a):
        """the remainder of an integer by two: nothing or one"""
        m = {k: c % 2 for k, c in self.topoly(a).items()}
        c0 = m.pop((), Fraction(0))
        m = {k: c for k, c in m.items() if c}
        if not m:
            return cnum(c0)
        if len(m) > 1 and any(len(k) != 1 or k[0][1] != 1 for k in m):
            return N("mod", a, const(2))
        even = self.atom(N("eq0", N("mod", self.frompoly(m), const(2)), True))
        return self.ite3(even, cnum(c0), cnum(1 - c0))

    def halves(self, r):
        """twice the half, rounded down, of an integer is the integer less its parity"""
        if r.op != "poly":
            return r
        for mono, c in r.args[0]:
            if len(mono) == 1 and mono[0][1] == 1 and c.denominator == 1 and c % 2 == 0 and a_glob(mono[0][0]) == "numpy.floor":
                x = self.mul(mono[0][0].args[1][0], const(2))
                if self.isint(x):
                    p = self.parity(x)
                    if p.op == "mod":
                        continue
                    rest = self.frompoly({k: v for k, v in r.args[0] if k != mono})
                    return self.lift(lambda q, y: self.add(y, self.mul(self.sub(x, q), cnum(c / 2))), [p, rest])
        return r

    def magnitude(self, m):
        """x.real**2 + x.imag**2 is abs(x)**2"""
        for mono in list(m):
            for x, p in mono:
                if p != 2 or x.op != "attr" or x.args[1] != "imag" or not m.get(mono):
                    continue
                rest = tuple(y for y in mono if y[0] is not x)
                re = N("attr", x.args[0], "real")
                other = [k for k, v in m.items() if v == m[mono] and len(k) == len(mono) and dict(k) == dict(rest + ((re, 2),))]
                if other:
                    c = m.pop(mono)
                    del m[other[0]]
                    a = self.fcall(N("glob", "numpy.abs"), (x.args[0],), ())
                    for k, v in self.topoly(self.mul(self.frompoly({rest: c}), self.mul(a, a))).items():
                        m[k] = m.get(k, Fraction(0)) + v
                    return self.magnitude(m)
        return m

    def euler(self, m):
        """A*cos(x) + A*1j*sin(x) is A*exp(1j*x)"""
        j = const(1j)
        for mono in list(m):
            c = m.get(mono)
            x = next((x for x, p in mono if p == 1 and a_glob(x) == "numpy.cos"), None)
            if not c or x is None:
                continue
            rest = tuple(y for y in mono if y[0] is not x)
            other = [(k2, v) for k2, v in m.items() if v in (c, -c) and k2 != mono]
            s = N("call", N("glob", "numpy.sin"), *x.args[1:])
            for k2, v in other:
                if len(k2) == len(rest) + 2 and dict(k2) == dict(rest + ((j, 1), (s, 1))):
                    arg = x.args[1][0] if x.args[1] else x.args[2][0][1]
                    e = self.fcall(N("glob", "numpy.exp"), (self.mul(arg, j) if v == c else self.neg(self.mul(arg, j)),), ())
                    del m[mono], m[k2]
                    for mo, k3 in self.topoly(self.mul(self.frompoly({rest: c}), e)).items():
                        m[mo] = m.get(mo, Fraction(0)) + k3
                    break
        return m

    def sub(self, a, b):
        return self.add(a, b, -1)

    def neg(self, a):
        return self.frompoly({k: -v for k, v in self.topoly(a).items()})

    def mulmono(self, x, y):
        d = {}
        for a, p in x + y:
            d[a] = d.get(a, 0) + p
        items = [(a, p) for a, p in d.items() if p != 0]
        # 2**n * 2**m
        pows = [(a, p) for a, p in items if a.op == "pow"]
        if len(pows) > 1:
            by = {}
            for a, p in pows:
                by.setdefault(a.args[0], []).append((a, p))
            for base, l in by.items():
                if len(l) > 1:
                    e = const(0)
                    for a, p in l:
                        e = self.add(e, self.mul(a.args[1], const(p)))
                        items.remove((a, p))
                    r = self.power(base, e)
                    if num(r):
                        return self._mono_sorted(items), fr(r.args[0])
                    m = self.topoly(r)
                    if len(m) == 1:
                        (k, c), = m.items()
                        mm, cc = self.mulmono(tuple(items), k)
                        return mm, cc * c
        return self._mono_sorted(items), Fraction(1)

    def _mono_sorted(self, items):
        return tuple(sorted(items, key=lambda ap: (digest(ap[0]), ap[1])))

    def mul(self, a, b):
        pa, pb = self.topoly(a), self.topoly(b)
        if len(pa) * len(pb) > 400:
            raise Blowup("poly")
        m = {}
        for k1, c1 in pa.items():
            for k2, c2 in pb.items():
                k, c = self.mulmono(k1, k2)
                m[k] = m.get(k, Fraction(0)) + c * c1 * c2
        return self.halves(self.frompoly(m))

    def inv(self, b):
        m = self.topoly(b)
        if len(m) == 1:
            (k, c), = m.items()
            return self.frompoly({tuple((a, -p) for a, p in k): 1 / c})
        if not m:
            return N("inv", const(0))
        lead = self.leadmono(m)
        k = m[lead]
        return self.frompoly({((N("inv", self.frompoly({q: v / k for q, v in m.items()})), 1),): 1 / k})

    def floor(self, x):
        if num(x):
            f = fr(x.args[0])
            return cnum(f.numerator // f.denominator)
        if self.isint(x):
            return x
        # pull integer additive terms out
        m = self.topoly(x)
        outm, inm = {}, {}
        for mono, c in m.items():
            if c.denominator == 1 and all(p > 0 and self.isint(a) for a, p in mono):
                outm[mono] = c
            else:
                inm[mono] = c
        inner = N("call", N("glob", "numpy.floor"), (self.frompoly(inm),), ())
        return self.add(inner, self.frompoly(outm))

    def power(self, a, b):
        if num(b):
            e = fr(b.args[0])
            if e.denominator == 1:
                e = int(e)
                if num(a):
                    v = fr(a.args[0])
                    if v is not None and (v != 0 or e >= 0) and abs(e) < 200:
                        return cnum(v ** e)
                m = self.topoly(a)
                if len(m) == 1 or 0 <= e <= 3:
                    base = a if e >= 0 else self.inv(a)
                    r = const(1)
                    for _ in range(abs(e) if abs(e) <= 60 else 0):
                        r = self.mul(r, base)
                    if abs(e) <= 60:
                        return r
            if e == Fraction(1, 2):
                m = self.topoly(a)
                if len(m) == 1:
                    (k, c), = m.items()
                    if c == 1 and k and all(p == 2 and a_glob(x) == "numpy.abs" for x, p in k):
                        return self.frompoly({tuple((x, 1) for x, p in k): Fraction(1)})
        if num(a) and b.op == "poly":
            m = dict(b.args[0])
            c0 = m.pop((), None)
            if c0 is not None and c0.denominator == 1:
                return self.mul(self.power(a, cnum(c0)), self.power(a, self.frompoly(m)))
            if len(m) == 1:
                (k, c), = m.items()
                if c < 0:
                    return self.inv(self.power(a, self.frompoly({k: -c})))
        return N("pow", a, b)

    def c_bin(self, n):
        op, a, b = n.args
        return self.lift(lambda x, y: self.fbin(op, x, y), [self.c(a), self.c(b)])

    def c_poly(self, n):
        r = const(0)
        for mono, c in n.args[0]:
            t = cnum(c)
            for a, p in mono:
                t = self.lift(lambda x, y: self.mul(x, self.power(y, const(p))), [t, self.c(a)])
            r = self.lift(self.add, [r, t])
        return r

    def c_inv(self, n):
        return self.lift(self.inv, [self.c(n.args[0])])

    def c_pow(self, n):
        return self.lift(self.power, [self.c(n.args[0]), self.c(n.args[1])])

    def c_mod(self, n):
        return self.lift(lambda a, b: self.fbin("%", a, b), [self.c(n.args[0]), self.c(n.args[1])])

    def fbin(self, op, a, b):
        for x in (a, b):
            if x in (TRUE, FALSE):
                pass
        if op == "+":
            if self.isstr(a) or self.isstr(b):
                return self.strcat((a, b))
            if self.islist(a) and self.islist(b):
                return self.concat(a, b)
            return self.add(a, b)
        if op == "-":
            if a.op == "setof" or b.op == "setof":
                return N("setminus", a, b)
            return self.sub(a, b)
        if op == "*":
            if a.op == "list" or b.op == "list" or self.isstr(a) or self.isstr(b):
                x, y = sorted((a, b), key=digest)
                return N("seqmul", x, y)
            return self.mul(a, b)
        if op == "/":
            return self.mul(a, self.inv(b))
        if op == "//":
            return self.floor(self.mul(a, self.inv(b)))
        if op == "%":
            if num(a) and num(b) and fr(b.args[0]) != 0:
                return cnum(fr(a.args[0]) % fr(b.args[0]))
            if num(b) and fr(b.args[0]) == 2 and self.isint(a):
                return self.parity(a)
            return N("mod", a, b)
        if op == "**":
            return self.power(a, b)
        if op in ("&", "|", "^"):
            x, y = sorted((a, b), key=digest)
            return N("bitop", op, x, y)
        return N("bin", op, a, b)

    def c_un(self, n):
        if n.args[0] == "-":
            return self.lift(self.neg, [self.c(n.args[1])])
        return self.lift(lambda x: N("un", n.args[0], x), [self.c(n.args[1])])

    # ------------------------------------------------------------ strings and paths
    def c_cat(self, n):
        return self.lift(lambda *xs: self.strcat(xs), [self.c(x) for x in n.args])

    c_strcat = c_cat

    def strcat(self, xs):
        out = []
        for x in xs:
            parts = x.args if x.op == "strcat" else (x,)
            for p in parts:
                if p.op == "const" and p.args[0] == "":
                    continue
                if out and p.op == "const" and out[-1].op == "const" and isinstance(p.args[0], str) and isinstance(out[-1].args[0], str):
                    out[-1] = const(out[-1].args[0] + p.args[0])
                else:
                    out.append(p)
        if not out:
            return const("")
        if len(out) == 1 and (out[0].op == "const" or self.isstr(out[0])):
            return out[0]
        return N("strcat", *out)

    def tostr(self, x):
        if x.op == "const" and isinstance(x.args[0], (str, int)) and not isinstance(x.args[0], bool):
            return const(str(x.args[0]))
        if self.isstr(x) or x.op == "strcat":
            return x
        return N("call", N("glob", "builtins.str"), (x,), ())

    def c_fmt(self, n):
        x, conv, spec = n.args
        if x is const("") and spec.op == "cat" and len(spec.args) == 2 and spec.args[1] is const("s") and spec.args[0].op == "fmt":
            n = spec.args[0].args[0]            # nothing, padded
            return self.lift(lambda y: self.fbin("*", const(" "), y), [self.c(n)])
        if conv in (-1, 115) and spec in (const(""), N("cat")):
            return self.lift(self.tostr, [self.c(x)])
        return self.lift(lambda a, s: N("fmtspec", a, conv, s), [self.c(x), self.c(spec)])

    def c_path(self, n):
        return self.lift(lambda *xs: self.path(xs), [self.c(x) for x in n.args])

    def path(self, xs):
        out = []
        for x in xs:
            if x.op == "path":
                out += list(x.args)
            elif x.op == "call" and a_glob(x) == "pathlib.Path" and x.args[1] and not x.args[2]:
                p = self.path(x.args[1]) if len(x.args[1]) > 1 else None
                out += list(p.args) if p is not None else [x.args[1][0]]
            elif x.op == "const" and isinstance(x.args[0], str) and out:
                for s in x.args[0].split("/"):
                    if s and s != ".":
                        out.append(const(s))
            else:
                out.append(x)
        if len(out) == 1:
            return out[0]
        return N("path", *out)

    # ------------------------------------------------------------ containers
    def c_list(self, n):
        return self.lift(lambda *xs: self.mklist(xs), [self.c(x) for x in n.args])

    c_tuple = c_list

    def c_spread(self, n):
        return self.lift(lambda x: N("spread", x), [self.c(n.args[0])])

    def mklist(self, xs):
        out = []
        for x in xs:
            if x.op == "starred":
                x = N("spread", x.args[0])
            if x.op == "spread":
                if x.args[0].op == "list":
                    out += list(x.args[0].args)
                    continue
            out.append(x)
        if len(out) == 1 and out[0].op == "spread":
            return out[0].args[0]
        return N("list", *out)

    def c_append(self, n):
        return self.lift(lambda l, x: self.mklist((N("spread", l), x)), [self.c(n.args[0]), self.c(n.args[1])])

    def concat(self, a, b):
        return self.mklist((N("spread", a), N("spread", b)))

    def c_concat(self, n):
        return self.lift(self.concat, [self.c(n.args[0]), self.c(n.args[1])])

    def c_dict(self, n):
        return self.lift_tuple("dict", mapargs(n.args, self.c), lambda ps: self.mkdict(N("dict", ()), ps))

    def c_dupd(self, n):
        return self.lift_tuple("dupd", mapargs(n.args, self.c), self.mkdict)

    def mkdict(self, base, pairs):
        ps = list(pairs)
        if base.op in ("dict", "dupd"):
            ps = list(base.args[0] if base.op == "dict" else base.args[1]) + ps
            base = N("dict", ()) if base.op == "dict" else base.args[0]
        out = []
        for k, v in ps:
            for j, (k2, v2) in enumerate(out):
                if k2 is k:
                    del out[j]
                    break
            out.append((k, v))
        if base.op == "dict":
            out = [(k, v) for k, v in out if v.op != "del"]
        if all(k.op == "const" for k, v in out):
            out.sort(key=lambda kv: (type(kv[0].args[0]).__name__, repr(kv[0].args[0])))
        if base.op == "dict":
            return N("dict", tuple(out))
        if not out:
            return base
        return N("dupd", base, tuple(out))

    def c_dmerge(self, n):
        def f(a, b):
            if b.op == "dict":
                return self.mkdict(a, b.args[0])
            return N("dmerge", a, b)

        return self.lift(f, [self.c(n.args[0]), self.c(n.args[1])])

    def c_dictof(self, n):
        return self.lift(self.dictof, [self.c(n.args[0])])

    def dictof(self, x):
        if x.op == "mk":
            c, base, pairs = x.args
            b = N("dictof", base) if base is not NONE else N("dict", ())
            if base is not NONE:
                return self.mkdict(b, tuple((const(k), v) for k, v in pairs))
        return N("dictof", x)

    def c_new(self, n):
        q, kw, star = n.args
        na = (tuple((k, self.c(v)) for k, v in kw), self.c(star))
        return self.lift_tuple("new", na, lambda kw, star: self.mkobj(q, kw, star))

    def c_mk(self, n):
        q, base, pairs = n.args
        na = (self.c(base), tuple((k, self.c(v)) for k, v in pairs))
        return self.lift_tuple("mk", na, lambda b, ps: self.mkfrom(q, b, dict(ps)))

    def mkobj(self, q, kw, star):
        d = {}
        base = NONE
        s = star
        stack = []
        while s is not NONE:
            if s.op == "dupd":
                stack.append(s.args[1])
                s = s.args[0]
            elif s.op == "dict":
                stack.append(s.args[0])
                s = NONE
            elif s.op == "dictof":
                base = s.args[0]
                s = NONE
            else:
                base = N("fromdict", s)
                s = NONE
        for ps in reversed(stack):
            for k, v in ps:
                if k.op != "const":
                    return N("new", q, tuple(sorted(kw)), star)
                d[k.args[0]] = v
        for k, v in kw:
            d[k] = v
        if base is NONE:
            d = {k: v for k, v in d.items() if v.op != "del"}
        return self.mkfrom(q, base, d)

    def fielddefault(self, q, name):
        c = self.ix.classes.get(q)
        if c is None:
            return None
        f = c.field(name)
        if f is None or f[1] is None:
            return None
        return self.c(self.I.const_expr(f[1], f[2].module))

    def mkfrom(self, q, base, d):
        if base is not NONE and base.op == "mk":
            bd = dict(base.args[2])
            bd.update(d)
            d = bd
            base = base.args[1]
        c = self.ix.classes.get(q)
        fields = None
        if c is not None and c.is_model():
            fields = c.all_fields()
            # unknown names are ignored by the model unless it allows extras
            ex = c.config.get("extra")
            d = {k: v for k, v in d.items() if k in fields or ex is not None}
        out = []
        for k, v in d.items():
            if base is NONE:
                if v.op == "del":
                    continue
                dv = self.fielddefault(q, k)
                if dv is not None and dv is v:
                    continue
            else:
                bt = self.ty(base)
                if v is self.fattr(base, k) and bt == ("cls", q):
                    continue
                if v.op == "del":
                    # removed from the source dict: the field takes its default
                    dv = self.fielddefault(q, k)
                    v = dv if dv is not None else v
            out.append((k, v))
        out.sort()
        if not out and base is not NONE and self.ty(base) == ("cls", q):
            return base
        return N("mk", q, base, tuple(out))

    def c_upd(self, n):
        b, q, pairs = n.args
        na = (self.c(b), tuple((k, self.c(v)) for k, v in pairs))

        def f(b, ps):
            qq = q
            if not qq:
                t = self.ty(b)
                qq = t[1] if t and t[0] == "cls" else ""
            if b.op == "inst":
                d = dict(b.args[1])
                d.update(dict(ps))
                return N("inst", b.args[0], tuple(sorted(d.items())))
            if b.op == "mk" and qq == b.args[0]:
                return self.mkfrom(qq, b, dict(ps))
            c = self.ix.classes.get(qq)
            if c is not None and c.is_model():
                return self.mkfrom(qq, b, dict(ps))
            return N("upd", b, qq, ps)

        return self.lift_tuple("upd", na, f)

    def c_inst(self, n):
        q, pairs = n.args
        na = (tuple((k, self.c(v)) for k, v in pairs),)
        return self.lift_tuple("inst", na, lambda ps: N("inst", q, tuple(sorted(ps))))

    def c_attr(self, n):
        return self.lift(lambda b: self.fattr(b, n.args[1]), [self.mask(self.c(n.args[0]))])

    def fattr(self, b, name):
        if b.op in ("raise", "undef"):
            return b
        if b.op == "mk":
            for k, v in b.args[2]:
                if k == name:
                    return v
            if b.args[1] is not NONE:
                bt = self.ty(b.args[1])
                if b.args[1].op == "fromdict":
                    return N("attr", b.args[1], name)
                return self.fattr(b.args[1], name)
            dv = self.fielddefault(b.args[0], name)
            if dv is not None:
                return dv
        if b.op == "inst":
            for k, v in b.args[1]:
                if k == name:
                    return v
        if b.op == "upd":
            for k, v in b.args[2]:
                if k == name:
                    return v
            return self.fattr(b.args[0], name)
        if name == "files" and a_glob(b) == "numpy.load":
            return self.fkeys(b)
        if name == "size" and (a_glob(b) == "numpy.unique" or b.op == "method" and b.args[0] == "unique"):
            return self.flen(b)
        if b.op == "path":
            if name == "name" and self.isstr(b.args[-1]):
                return b.args[-1]
            if name == "parent" and self.isstr(b.args[-1]):
                return self.path(b.args[:-1])
        return N("attr", b, name)

    def c_idx(self, n):
        return self.lift(self.fidx, [self.c(n.args[0]), self.choice(self.c(n.args[1]))])

    def choice(self, i):
        """a condition used as an index selects elements"""
        i = self.mask(i)
        if i.op == "call" and a_glob(i) in ("numpy.where", "numpy.nonzero", "numpy.flatnonzero") and not i.args[1] and len(i.args[2]) == 1 and i.args[2][0][1].op == "mask":
            return i.args[2][0][1]
        if i.op == "call" and a_glob(i) in ("numpy.where", "numpy.nonzero", "numpy.flatnonzero") and not i.args[2] and len(i.args[1]) == 1 and i.args[1][0].op == "mask":
            return i.args[1][0]
        if i.op == "attr" and i.args[1] == "values" and i.args[0].op == "mask":
            return i.args[0]
        return i

    def c_slice(self, n):
        def f(a, b, s):
            if a is const(0):
                a = NONE
            if s is const(1):
                s = NONE
            return N("slice", a, b, s)

        return self.lift(f, [self.c(x) for x in n.args])

    def fidx(self, b, i):
        if b.op in ("raise", "undef"):
            return b
        if b.op == "list" and i.op == "const" and isinstance(i.args[0], int) and not any(x.op == "spread" for x in b.args):
            k = i.args[0]
            if -len(b.args) <= k < len(b.args):
                return b.args[k]
        if b.op in ("dict", "dupd"):
            ps = b.args[0] if b.op == "dict" else b.args[1]
            ok = True
            for k, v in reversed(ps):
                if k is i:
                    if v.op == "del":
                        break
                    return v
                if not (k.op == "const" and i.op == "const"):
                    ok = False
                    break
            if ok and b.op == "dupd":
                return self.fidx(b.args[0], i)
        if b.op == "dictof" and i.op == "const" and isinstance(i.args[0], str):
            x = b.args[0]
            c = self.ix.classes.get((self.ty(x) or ("", ""))[1]) if self.ty(x) and self.ty(x)[0] == "cls" else None
            if c is not None and c.field(i.args[0]) is not None:
                return self.fattr(x, i.args[0])
        if b.op == "flatmap":
            nm, dom, E, y, s = b.args
            if E is FALSE and not s and dom.args[0] is const("n") and y.op == "list" and len(y.args) == 1 and y.args[0].op != "spread" and i.op != "slice":
                neg = num(i) and fr(i.args[0]) < 0
                ii = self.add(dom.args[1], i) if neg else i
                return self.c(subst(y.args[0], {N("iv", nm): ii}))
        if b.op == "dflat":
            init, nm, dom, E, y, s = b.args
            if E is FALSE and not s and y.op == "dict" and len(y.args[0]) == 1:
                k, v = y.args[0][0]
                if k.op == "elem" and k.args[0] == nm:
                    if not contains(v, lambda x: x is N("iv", nm)):
                        return self.c(subst(v, {k: i}))
                m = self.matchkey(k, i, N("iv", nm))
                if m is not None:
                    return self.c(subst(v, {N("iv", nm): m}))
        if b.op == "aset" and b.args[1] is i:
            return b.args[2]
        if b.op == "aset" and b.args[1].op == "const" and i.op == "const":
            return self.fidx(b.args[0], i)
        if i.op == "const" and isinstance(i.args[0], str) and b.op == "idx" and b.args[1].op == "mask" and b.args[0].op == "aset" \
                and b.args[0].args[1].op == "const" and isinstance(b.args[0].args[1].args[0], str):
            t = b.args[0]                       # a column of selected rows of a table with a column set
            if t.args[1] is not i:
                return self.fidx(N("idx", t.args[0], b.args[1]), i)
            if self.rank(t.args[2]) == 1:
                return self.fidx(t.args[2], b.args[1])
        if b.op == "attr" and b.args[1] == "shape" and i.op == "const" and isinstance(i.args[0], int):
            if i.args[0] < 0 and self.rank(b.args[0]):
                i = const(i.args[0] + self.rank(b.args[0]))
            e = self.extent(b.args[0], i.args[0])
            if e is not None:
                return e
        if b.op == "attr" and b.args[1] == "shape" and i is const(0):
            return self.flen(b.args[0])
        j = self.spelled(b, self.leading(i))
        if j is not i:
            return self.fidx(b, j)
        if b.op == "call" and a_glob(b) in ELEMWISE and len(b.args[1]) == 1 and not b.args[2] and (self.isarr(b.args[1][0]) or self.rank(b.args[1][0])):
            return self.fcall(b.args[0], (self.fidx(b.args[1][0], i),), ())      # f(x)[i] is f(x[i])
        if b.op == "attr" and b.args[1] == "_chan_to_idx" and i.op == "idx" and i.args[0] is self.fattr(self.fattr(b.args[0], "metadata"), "chans"):
            return i.args[1]                    # positions by name: what TimeData.__init__ establishes
        if i.op == "slice" and i.args == (NONE, NONE, NONE) and (self.islist(b)):
            return b
        if b.op == "idx" and b.args[1].op == "slice" and b.args[1].args[2] is NONE and i.op not in ("slice", "list", "mask", "const") and self.nonneg(i):
            lo = b.args[1].args[0]
            if lo is NONE or self.nonneg(lo):
                return self.fidx(b.args[0], i if lo is NONE else self.add(lo, i))
        if b.op == "call" and a_glob(b) in WHOLE_RED and not b.args[1] and i.op not in ("slice", "list", "mask"):
            kd = dict(b.args[2])
            sh = dict(kd["a"].args[2]).get("newshape") if sorted(kd) == ["a", "axis"] and kd["axis"] in (const(1), const(-1)) and a_glob(kd["a"]) == "numpy.reshape" else None
            if sh is not None and sh.op == "list" and len(sh.args) == 2:
                return self.fcall(b.args[0], (self.fidx(kd["a"], i),), ())
        return N("idx", b, i)

    RANK_DATA = {"TimeData": 2, "DecimatedData": 3, "WindowedData": 4, "SpectraData": 4, "SiteCombinedData": 3}     # of `data`, the level index included
    RANK_CALL = {"resistics.spectra.SpectraData.get_chans": 3, "resistics.spectra.SpectraData.get_level": 3, "resistics.spectra.SpectraData.get_chan": 2,
                 "resistics.window.WindowedData.get_level": 3, "resistics.window.WindowedData.get_local": 2, "resistics.decimate.DecimatedData.get_level": 2}

    def rank(self, n, depth=0):
        """number of dimensions of an array, where the data structures fix it"""
        o = n.op
        if depth > 30:
            return None
        if num(n) or o in ("iv", "mod"):
            return 0
        t = self.ty(n)
        if t and t[0] == "prim" and o not in ("poly", "idx", "pow", "inv"):
            return 0
        if o == "attr":
            b = self.ty(n.args[0])
            if n.args[1] == "data" and b and b[0] == "cls":
                return self.RANK_DATA.get(b[1].split(".")[-1])
            if n.args[1] in ("real", "imag"):
                return self.rank(n.args[0], depth + 1)
            return 1 if self.numlist(n) else None
        if o == "call":
            f = n.args[0]
            if f.op in ("func", "vfunc"):
                return self.RANK_CALL.get(f.args[0])
            d = a_glob(n)
            kd = dict(n.args[2])
            if d in ELEMWISE and len(n.args[1]) == 1 and not n.args[2]:
                return self.rank(n.args[1][0], depth + 1)
            if d == "numpy.swapaxes" and "a" in kd:
                return self.rank(kd["a"], depth + 1)
            if d == "numpy.transpose" and "a" in kd:
                return self.rank(kd["a"], depth + 1)
            if d.startswith("scipy.") and d in AXIS_OF and AXIS_OF[d] in kd and not d.endswith("interp1d"):
                return self.rank(kd[AXIS_OF[d]], depth + 1)
            if d in ("numpy.empty", "numpy.zeros", "numpy.ones") and "shape" in kd:
                sh = kd["shape"]
                if sh.op == "list" and not any(x.op == "spread" for x in sh.args):
                    return len(sh.args)
                return 1 if self.isint(sh) else None
            if d == "numpy.array" and list(kd) == ["object"]:
                return self.rank(kd["object"], depth + 1)
            if d in ("numpy.arange", "numpy.linspace", "numpy.interp"):
                return 1 if d != "numpy.interp" else self.rank(kd["x"], depth + 1) if "x" in kd else None
            return None
        if o == "method":
            if n.args[0] in ("astype", "copy"):
                return self.rank(n.args[1], depth + 1)
            if n.args[0] == "flatten":
                return 1
            return None
        if o == "poly":
            r = 0
            for mono, _ in n.args[0]:
                for x, _ in mono:
                    k = self.rank(x, depth + 1)
                    if k is None:
                        return None
                    r = max(r, k)
            return r
        if o in ("pow", "inv"):
            return self.rank(n.args[0], depth + 1)
        if o in ("aset", "aflat"):
            return self.rank(n.args[0], depth + 1)
        if o == "idx":
            r = self.rank(n.args[0], depth + 1)
            if r is None:
                return None
            arrays = 0
            for x in (n.args[1].args if n.args[1].op == "list" else (n.args[1],)):
                if x is NONE:
                    r += 1
                elif x.op == "slice" or x is ELLIPSIS:
                    pass
                elif self.isint(x):
                    r -= 1
                elif x.op in ("list", "flatmap") or self.islist(x):
                    arrays += 1
                else:
                    return None
            return r if arrays < 2 and r >= 0 else None
        return None

    def numlist(self, n):
        t = self.ty(n)
        return bool(t and t[0] in ("list", "coll") and len(t) > 1 and t[1] and t[1][0] == "prim")

    def spelled(self, b, i):
        """an index with its ellipsis written out and nothing said about the
        axes it leaves alone"""
        if i is ELLIPSIS or i.op != "list":
            return i
        xs = [NONE if x.op == "glob" and x.args[0] == "numpy.newaxis" else x for x in i.args]
        dots = [j for j, x in enumerate(xs) if x is ELLIPSIS]
        if len(dots) > 1:
            return i
        if dots:
            if dots[0] == len(xs) - 1:
                xs = xs[:-1]
            else:
                r = self.rank(b)
                used = len([x for x in xs if x is not NONE and x is not ELLIPSIS])
                if r is None or r < used or any(x.op == "call" for x in xs):
                    return N("list", *xs)
                full = N("slice", NONE, NONE, NONE)
                xs[dots[0]:dots[0] + 1] = [full] * (r - used)
        if ELLIPSIS not in xs:
            while len(xs) > 1 and self.full(xs[-1]):
                xs = xs[:-1]
        return xs[0] if len(xs) == 1 else N("list", *xs)

    def leading(self, i):
        """an index without the full slices at its end"""
        if i.op == "list" and len(i.args) > 1 and self.full(i.args[-1]) and not any(x.op == "const" and x.args[0] in (None, Ellipsis) or x.op == "glob" for x in i.args):
            xs = i.args
            while len(xs) > 1 and self.full(xs[-1]):
                xs = xs[:-1]
            return xs[0] if len(xs) == 1 else N("list", *xs)
        return i

    def full(self, x):
        return x.op == "slice" and x.args[:3] == (NONE, NONE, NONE)

    def matchkey(self, k, i, iv):
        if k is iv:
            return i
        if k.op == "idx" and i.op == "idx" and k.args[0] is i.args[0] and k.args[1] is iv:
            return i.args[1]
        return None

    def c_aset(self, n):
        b, i, v = [self.c(x) for x in n.args]
        return self.lift(self.aset, [b, self.choice(i), v])

    def apart(self, i, j):
        """do two indices certainly address different elements?"""
        if i.op == "list" and j.op == "list":
            for x, y in zip(i.args, j.args):
                if x is NONE or y is NONE or x is ELLIPSIS or y is ELLIPSIS or "list" in (x.op, y.op):
                    return False
                if self.apart(x, y):
                    return True
            return False
        if i.op == "slice" and j.op == "slice":
            (a, _, k), (b, _, m) = i.args, j.args
            a, b = (const(0) if x is NONE else x for x in (a, b))
            if k is m and num(k) and fr(k.args[0]) > 1 and num(a) and num(b) and fr(a.args[0]) >= 0 and fr(b.args[0]) >= 0:
                return (fr(a.args[0]) - fr(b.args[0])) % fr(k.args[0]) != 0
            return False
        if num(i) and num(j) and fr(i.args[0]) >= 0 and fr(j.args[0]) >= 0:
            return i is not j
        return False

    def aset(self, b, i, v):
        i = self.spelled(b, self.leading(i))
        if b.op == "aset" and i.op in ("list", "slice") and digest(i) < digest(b.args[1]) and self.apart(i, b.args[1]) and not contains(v, lambda x: x is b):
            return N("aset", self.aset(b.args[0], i, v), b.args[1], b.args[2])
        if b.op == "aset" and b.args[1] is i:
            b = b.args[0]
        if v.op == "idx" and v.args[0] is b and v.args[1] is i:
            return b
        if b.op == "aset" and b.args[1].op == "const" and i.op == "const" and b.args[1] is not i:
            if digest(i) < digest(b.args[1]):
                return N("aset", self.aset(b.args[0], i, v), b.args[1], b.args[2])
        return N("aset", b, i, v)

    def c_keys(self, n):
        return self.lift(self.fkeys, [self.c(n.args[0])])

    def fkeys(self, d):
        if d.op == "dictof":
            pass
        if d.op == "keys":
            return d
        return N("keys", d)

    def flen(self, x):
        if x.op == "keys":
            x = x.args[0]
        if x.op == "call" and a_glob(x) in ("builtins.list", "builtins.sorted", "builtins.reversed") and len(x.args[1]) == 1:
            return self.flen(x.args[1][0])
        if x.op == "list":
            r = const(0)
            for e in x.args:
                r = self.add(r, self.flen(e.args[0]) if e.op == "spread" else const(1))
            return r
        if x.op == "dict":
            return const(len(x.args[0]))
        if x.op == "flatmap":
            nm, dom, E, y, s = x.args
            if E is FALSE and not s and dom.args[0] is const("n"):
                ls = self.leaves(y)
                if all(z.op == "list" and not any(e.op == "spread" for e in z.args) for z in ls) and len({len(z.args) for z in ls}) == 1:
                    return self.mul(dom.args[1], const(len(ls.pop().args)))
        if x.op == "call" and a_glob(x) == "numpy.reshape":
            kd = dict(x.args[2])
            if kd.get("newshape") is not None and kd["newshape"].op == "list" and kd["newshape"].args and not (num(kd["newshape"].args[0]) and fr(kd["newshape"].args[0].args[0]) < 0):
                return kd["newshape"].args[0]
        if x.op == "const" and isinstance(x.args[0], (str, tuple)):
            return const(len(x.args[0]))
        if x.op == "method" and x.args[0] == "tolist" and not x.args[2]:
            return self.flen(x.args[1])
        if x.op in ("aset", "aflat"):
            t = self.ty(x.args[0])
            return self.flen(x.args[0])
        if x.op == "idx" and x.args[1].op == "slice" and x.args[1].args[0] is NONE and x.args[1].args[2] is NONE and x.args[1].args[1].op != "const" and self.isint(x.args[1].args[1]):
            n, m = x.args[1].args[1], self.flen(x.args[0])            # the leading n elements
            return self.lift(lambda p, q: self.ite3(self.boolof(self.cmp("<", p, q)), p, q), [m, n])
        if x.op == "attr" and x.args[1] in COUNTS:
            t = self.ty(x.args[0])
            c = self.ix.classes.get(t[1]) if t and t[0] == "cls" else None
            ks = COUNTS[x.args[1]].split("*")
            if c is not None and c.field(x.args[1]) is not None and all(c.field(k) is not None for k in ks):
                r = const(1)
                for k in ks:
                    r = self.mul(r, self.fattr(x.args[0], k))
                return r
        e = self.extent(x, 0)
        if e is not None:
            return e
        if x.op == "attr" and x.args[1] == "index":
            t = self.ty(x.args[0])
            if t and t[0] == "ext" and "DataFrame" in t[1]:
                return self.flen(x.args[0])
        if x.op == "ite":
            return self.lift(self.flen, [x])
        return N("call", N("glob", "builtins.len"), (x,), ())

    def extent(self, x, k):
        """what the metadata of a data object say of the size of its array"""
        lvl = None
        if x.op == "idx" and x.args[1].op not in ("slice", "list", "mask"):
            x, lvl = x.args
        if x.op != "attr" or x.args[1] != "data":
            return None
        t = self.ty(x.args[0])
        if not t or t[0] != "cls":
            return None
        depth, ns = EXTENTS.get(t[1].rpartition(".")[2], (None, ()))
        if depth is None or depth != (lvl is not None) or not -len(ns) <= k < len(ns):
            return None
        k = ns[k]
        m = self.fattr(x.args[0], "metadata")
        return self.fattr(m if k == "n_chans" or lvl is None else self.fidx(self.fattr(m, "levels_metadata"), lvl), k)

    def c_setof(self, n):
        return self.lift(self.setof, [self.c(n.args[0])])

    def setof(self, x):
        x = self.members(x)
        if x.op == "list":
            x = N("list", *sorted(set(x.args), key=digest))
        if x.op == "list" and len(x.args) == 1 and x.args[0].op == "spread":
            x = x.args[0].args[0]
        return N("setof", x)

    UNORDERED = ("builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset", "builtins.sorted", "builtins.reversed")

    def members(self, x):
        """what a collection holds, whatever the order and however often"""
        while True:
            if x.op == "setof":
                x = x.args[0]
            elif x.op == "call" and a_glob(x) in self.UNORDERED and len(x.args[1]) == 1:
                x = x.args[1][0]
            elif x.op == "keys":
                x = x.args[0]
            else:
                break
        if x.op == "list":
            return self.mklist([N("spread", self.members(e.args[0])) if e.op == "spread" else e for e in x.args])
        if x.op == "flatmap" and x.args[3].op == "list" and len(x.args[3].args) == 1 and x.args[3].args[0].op == "spread":
            nm, dom, E, y, s = x.args
            m = self.members(y)
            return x if m is y else N("flatmap", nm, dom, E, m, s)
        return x

    def c_setadd(self, n):
        return self.lift(lambda a, x: self.setof(N("list", N("spread", a), x)), [self.c(n.args[0]), self.c(n.args[1])])

    def c_setupd(self, n):
        return self.lift(lambda a, b: self.setof(N("list", N("spread", a), N("spread", b))), [self.c(n.args[0]), self.c(n.args[1])])

    # ------------------------------------------------------------ calls
    def c_call(self, n):
        f, a, k = n.args
        na = (self.c(f), tuple(self.c(x) for x in a), tuple((kk, self.c(v)) for kk, v in k))
        if f.op == "glob" and f.args[0] in MASKING and na[1]:
            # an elementwise condition, not a decision
            na = (na[0], (self.mask(na[1][0]),) + na[1][1:], na[2])
        return self.lift_tuple("call", na, self.fcall)

    def c_lam(self, n):
        r = self.I.lam_body(n) if n in self.I.closures else None
        return n if r is None else N("lamb", const(r[0]), self.c(r[1]))

    def c_lamb(self, n):
        return N("lamb", n.args[0], self.c(n.args[1]))

    def c_mask(self, n):
        return self.mask(self.c(n.args[0]))

    def mask(self, x):
        def boolean(y):
            return boolean(y.args[1]) and boolean(y.args[2]) if y.op == "ite" else y is TRUE or y is FALSE
        return N("mask", x) if x.op == "ite" and boolean(x) else x

    def c_method(self, n):
        name, recv, a, k = n.args
        na = (self.c(recv), tuple(self.c(x) for x in a), tuple((kk, self.c(v)) for kk, v in k))
        if METHOD_FUNC.get(name) in MASKING:
            na = (self.mask(na[0]),) + na[1:]
        return self.lift_tuple("method", na, lambda r, a, k: self.fmethod(name, r, a, k))

    def fcall(self, f, a, k):
        d = f.args[0] if f.op == "glob" else None
        if f.op == "raise":
            return f
        for x in a:
            if x.op == "raise":
                return x
        if d is None:
            if self.erase is not None:
                r = self.erase(f, a, k)
                if r is not None:
                    return r
            return N("call", f, a, tuple(sorted(k)))
        kd = dict(k)
        if d == "builtins.len" and len(a) == 1:
            return self.flen(a[0])
        if d in ("builtins.float", "builtins.int") and len(a) == 1 and a[0].op == "method" and a[0].args[0] in ("strip", "lstrip", "rstrip") and not a[0].args[2]:
            return self.fcall(f, (a[0].args[1],), k)
        if d == "builtins.float" and len(a) == 1:
            if a[0].op == "const" and isinstance(a[0].args[0], str):
                pass
            elif self.isstr(a[0]):
                pass
            else:
                return a[0]
        if d == "builtins.bool" and len(a) == 1:
            return self.boolof(a[0])
        if d == "builtins.str" and len(a) == 1:
            return self.tostr(a[0])
        if d == "builtins.int" and len(a) == 1:
            if self.isint(a[0]):
                return a[0]
            if num(a[0]):
                return const(int(fr(a[0].args[0])))
            if a[0].op == "call" and a_glob(a[0]) in ("numpy.floor", "numpy.ceil", "builtins.round", "numpy.round"):
                return a[0]
            if self.quantity(a[0]):
                return self.floor(a[0])
        if d in ("numpy.floor", "numpy.ceil") and len(a) == 1:
            if d == "numpy.floor":
                return self.floor(a[0])
            return self.neg(self.floor(self.neg(a[0])))
        if d in ("numpy.any", "numpy.all") and len(a) == 1 and not k and a[0].op == "mask":
            r = self.extreme(d == "numpy.any", a[0].args[0])
            if r is not None:
                return r
        if d.startswith("numpy.") and d[6:] in ("power", "multiply", "divide", "true_divide", "add", "subtract", "square", "reciprocal", "negative", "sqrt"):
            a = tuple(self.fcall(N("glob", "numpy.array"), (x,), ()) if self.islist(x) else x for x in a)
        if d == "numpy.sqrt" and len(a) == 1:
            return self.power(a[0], const(Fraction(1, 2)))
        if d in ("numpy.power", "builtins.pow", "math.pow") and len(a) == 2:
            return self.power(a[0], a[1])
        if d in ("numpy.multiply", "operator.mul") and len(a) == 2 and not k:
            return self.mul(a[0], a[1])
        if d in ("numpy.divide", "numpy.true_divide") and len(a) == 2 and not k:
            return self.mul(a[0], self.inv(a[1]))
        if d in ("numpy.add",) and len(a) == 2 and not k:
            return self.add(a[0], a[1])
        if d in ("numpy.subtract",) and len(a) == 2 and not k:
            return self.sub(a[0], a[1])
        if d == "numpy.floor_divide" and len(a) == 2:
            return self.floor(self.mul(a[0], self.inv(a[1])))
        if d == "numpy.ravel" and len(a) == 1 and not k and (self.isarr(a[0]) or self.rank(a[0])):
            return N("method", "flatten", a[0], (), ())
        if d in ("numpy.degrees", "numpy.radians") and len(a) == 1 and not k:
            pi, x = N("glob", "numpy.pi"), self.fcall(N("glob", "numpy.array"), (a[0],), ()) if self.islist(a[0]) else a[0]
            return self.mul(self.mul(x, const(180)), self.inv(pi)) if d == "numpy.degrees" else self.mul(self.mul(x, pi), const(Fraction(1, 180)))
        if d == "numpy.hypot" and len(a) == 2 and not k:
            return self.power(self.add(self.mul(a[0], a[0]), self.mul(a[1], a[1])), const(Fraction(1, 2)))
        if d == "numpy.arctan2" and len(a) == 2 and not k and [x.args[1] if x.op == "attr" else "" for x in a] == ["imag", "real"] and a[0].args[0] is a[1].args[0]:
            return N("call", N("glob", "numpy.angle"), (a[0].args[0],), ())
        if d in ("numpy.savez", "numpy.savez_compressed") and a and a[0].op == "path" and a[0].args[-1].op == "const" and isinstance(a[0].args[-1].args[0], str) and not a[0].args[-1].args[0].endswith(".npz"):
            a = (N("path", *a[0].args[:-1], const(a[0].args[-1].args[0] + ".npz")),) + a[1:]
        if d == "builtins.complex" and len(a) == 2 and not k:
            return self.add(a[0], self.mul(a[1], const(1j)))
        if d == "builtins.open" and 1 <= len(a) <= 2 and not (set(kd) - {"mode", "encoding", "newline"}):
            return self.fmethod("open", self.fcall(N("glob", "pathlib.Path"), a[:1], ()), a[1:], k)
        if d == "numpy.negative" and len(a) == 1:
            return self.neg(a[0])
        if d == "numpy.square" and len(a) == 1:
            return self.mul(a[0], a[0])
        if d == "numpy.reciprocal" and len(a) == 1:
            return self.inv(a[0])
        if d in ("numpy.mod", "numpy.remainder") and len(a) == 2:
            return self.fbin("%", a[0], a[1])
        if d == "builtins.divmod" and len(a) == 2:
            return N("list", self.floor(self.mul(a[0], self.inv(a[1]))), self.fbin("%", a[0], a[1]))
        if d in ("numpy.real", "numpy.imag") and len(a) == 1:
            return self.fattr(a[0], d.split(".")[-1])
        if d in ("numpy.log2", "numpy.log10", "numpy.log", "numpy.exp") and len(a) == 1 and num(a[0]):
            v = fr(a[0].args[0])
            if d == "numpy.log2" and v > 0:
                for e in range(-32, 64):
                    if Fraction(2) ** e == v:
                        return const(e)
        if d in ("builtins.max", "builtins.min") and not k:
            xs = list(a)
            if len(xs) == 1 and xs[0].op == "list" and not any(x.op == "spread" for x in xs[0].args):
                xs = list(xs[0].args)
            if 2 <= len(xs) <= 4:
                r = xs[0]
                for x in xs[1:]:
                    pick = lambda p, q: self.ite3(self.boolof(self.cmp("<", p, q)), q if d.endswith("max") else p, p if d.endswith("max") else q)
                    r = self.lift(pick, [r, x])
                return r
        if d in ("builtins.max", "builtins.min") and len(a) == 1 and not k:
            d = "numpy." + d[-3:]
            f = N("glob", d)
        if d == "builtins.sum" and len(a) == 1 and not k:
            if a[0].op == "list" and not any(x.op == "spread" for x in a[0].args):
                r = const(0)
                for x in a[0].args:
                    r = self.add(r, x)
                return r
        if d == "builtins.list" and len(a) == 1:
            x = a[0]
            if x.op == "method" and x.args[0] == "keys":
                return self.fkeys(x.args[1])
            if x.op in ("list", "flatmap", "keys") or self.islist(x):
                return x
            if self.ty(x) and self.ty(x)[0] == "dict":
                return self.fkeys(x)
            if x.op == "call" and a_glob(x) == "builtins.range" and len(x.args[1]) == 1:
                return self.binder_canon("flatmap", NONE, "t!", N("dom", const("n"), x.args[1][0]), FALSE, (N("list", N("iv", "t!")),), ())
        if d == "builtins.sorted" and len(a) == 1:
            x = a[0]
            if x.op == "method" and x.args[0] == "keys":
                x = self.fkeys(x.args[1])
            elif x.op == "call" and a_glob(x) in ("builtins.list",) and len(x.args[1]) == 1:
                x = x.args[1][0]
            elif self.ty(x) and self.ty(x)[0] == "dict":
                x = self.fkeys(x)
            return N("call", f, (x,), tuple(sorted(k)))
        if d == "builtins.dict" and len(a) == 1 and not k:
            return a[0]
        if d in ("builtins.set", "builtins.frozenset") and len(a) == 1:
            x = a[0]
            if x.op == "call" and a_glob(x) == "builtins.list" and len(x.args[1]) == 1:
                x = x.args[1][0]
            return self.setof(x)
        if d == "builtins.dictget" and len(a) == 3:
            return self.ite3(self.fin(a[1], a[0]), self.fidx(a[0], a[1]), a[2])
        if d == "pathlib.Path" and len(a) == 1 and not k and self.spelled_path(a[0]):
            return self.ite3(self.atom(N("isinstance", a[0], N("glob", "builtins.str"))), N("call", f, a, ()), a[0])
        if d == "pathlib.Path" and not k and a:
            if len(a) == 1 and (a[0].op == "path" or self.ty(a[0]) == ("ext", "pathlib.Path")):
                return a[0]
            if len(a) > 1:
                return self.path((N("call", f, (a[0],), ()),) + tuple(a[1:])) if not (self.ty(a[0]) == ("ext", "pathlib.Path")) else self.path(a)
        if d == "numpy.arange" and len(k) == 1 and k[0][0] == "dtype" and k[0][1].op == "glob" and k[0][1].args[0] in INT_TYPES:
            k, kd = (), {}
        if d == "numpy.arange" and not k:
            if len(a) == 2 and a[0] is const(0):
                a = (a[1],)
            elif len(a) == 3 and a[2] is const(1):
                a = a[:2] if a[0] is not const(0) else (a[1],)
            if len(a) == 2 and self.isint(a[0]):
                return self.add(a[0], self.fcall(f, (self.sub(a[1], a[0]),), ()))
        if d == "builtins.range" and not k:
            if len(a) == 2 and a[0] is const(0):
                a = (a[1],)
        if d in SIG:
            sig = SIG[d]
            for p, v in zip(sig, a):
                kd[p] = v
            rest = a[len(sig):]
            if d == "scipy.signal.butter" and "btype" in kd and kd["btype"].op == "const":
                kd["btype"] = const(BTYPES.get(kd["btype"].args[0], kd["btype"].args[0]))
            if d == "scipy.signal.butter" and "Wn" in kd and kd.get("fs", NONE) is not NONE:
                half = self.mul(const(Fraction(1, 2)), kd.pop("fs"))
                w = kd["Wn"]
                kd["Wn"] = N("list", *[self.mul(x, self.inv(half)) for x in w.args]) if w.op == "list" else self.mul(w, self.inv(half))
            if d == "scipy.interpolate.interp1d" and kd.get("copy", NONE).op == "const":
                kd.pop("copy", None)
            if d in AXIS_OF and AXIS_OF[d] in kd:
                self.axes(d, kd)
            if kd.get("dtype", NONE).op == "glob" and kd["dtype"].args[0] in DTYPES and d.startswith("numpy."):
                kd["dtype"] = N("glob", DTYPES[kd["dtype"].args[0]])
            drop = [p for p, v in kd.items() if (v is NONE and p in NONE_DEFAULT_KW) or ((d, p) in DEFKW and v is self.c(const(DEFKW[(d, p)])))]
            for p in drop:
                del kd[p]
            if d in ("numpy.zeros", "numpy.ones", "numpy.empty") and kd.get("dtype", NONE) is N("glob", "numpy.float64"):
                del kd["dtype"]
            a = tuple(rest)
            k = tuple(sorted(kd.items()))
            if d == "numpy.array" and sorted(kd) == ["dtype", "object"]:
                return self.fmethod("astype", self.fcall(f, (kd["object"],), ()), (kd["dtype"],), ())
            if d == "numpy.array" and list(kd) == ["object"] and self.isarr(kd["object"]):
                return kd["object"]
        else:
            k = tuple(sorted((p, v) for p, v in k if not ((d, p) in DEFKW and v is self.c(const(DEFKW[(d, p)])))))
        if d in COMM and len(a) == 2:
            a = tuple(sorted(a, key=digest))
        if d == "numpy.abs" and len(a) == 1 and not k:
            m = self.topoly(a[0])
            if m and m[self.leadmono(m) if any(q for q in m) else ()] < 0:
                a = (self.neg(a[0]),)
        return N("call", f, a, k)

    def axes(self, d, kd):
        """axes counted from the end are counted from the start"""
        r = None
        for p in ("axis", "axis1", "axis2"):
            v = kd.get(p, NONE)
            if v.op != "const" or not isinstance(v.args[0], int) or v.args[0] < 0 and r is None and self.rank(kd[AXIS_OF[d]]) is None:
                continue
            r = self.rank(kd[AXIS_OF[d]]) if r is None else r
            if r and -r <= v.args[0] < r:
                kd[p] = const(v.args[0] % r)
                if (d, p) in DEFKW and DEFKW[(d, p)] % r == v.args[0] % r:
                    del kd[p]

    def extreme(self, some, c):
        """any(xs < c) as min(xs) < c, and the like"""
        if c.op != "ite" or c.args[0].op != "lt0" or {c.args[1], c.args[2]} != {TRUE, FALSE}:
            return None
        pos = c.args[1] is TRUE
        m = self.topoly(c.args[0].args[0])
        arrs = [q for q in m if any(self.isarr(x) or a_glob(x) in ("numpy.array", "numpy.reshape") for x, _ in q)]
        if len(arrs) != 1 or len(arrs[0]) != 1 or arrs[0][0][1] != 1:
            return None
        q = arrs[0]
        k = m.pop(q)
        # p < 0 somewhere: the smallest p is below 0; p < 0 everywhere: the largest is
        small = some == pos
        red = self.fcall(N("glob", "numpy.min" if small == (k > 0) else "numpy.max"), (q[0][0],), ())
        r = self.lt0(self.add(self.frompoly(m), red, k))
        return r if pos else self.bnot(r)

    def fmethod(self, name, r, a, k):
        if r.op == "raise":
            return r
        t = self.ty(r)
        ext = bool(t and t[0] == "ext")
        if name == "open":
            if not a and len(k) == 1 and k[0][0] == "mode":
                a, k = (k[0][1],), ()
            if a and a[0].op == "const" and isinstance(a[0].args[0], str):
                m = a[0].args[0].replace("t", "")
                a = a[1:] if m == "r" and len(a) == 1 else (const(m),) + tuple(a[1:])
        if name in ("reshape", "transpose") and len(a) > 1 and not k:
            a = (N("list", *a),)
        if name == "ravel" and not a and not k and not ext:
            name = "flatten"
        if name == "reshape" and not k and not ext and list(a) in ([const(-1)], [N("list", const(-1))]):
            name, a = "flatten", ()
        if name in METHOD_FUNC and not ext:
            return self.fcall(N("glob", METHOD_FUNC[name]), (r,) + tuple(a), k)
        if name == "keys" and not a:
            return self.fkeys(r)
        if name == "copy" and not a and not ext:
            return r
        if name == "get" and t and t[0] == "dict" and 1 <= len(a) <= 2:
            return self.ite3(self.fin(a[0], r), self.fidx(r, a[0]), a[1] if len(a) > 1 else NONE)
        if name == "index" and len(a) == 1 and not k and a[0].op == "idx" and a[0].args[0] is r and a[0].args[1].op == "iv":
            return a[0].args[1]                 # the position of the element met
        if name == "total_seconds" and not a:
            return N("method", name, r, (), ())
        if name == "join" and len(a) == 1 and r.op == "const":
            if a[0].op == "list" and not any(x.op == "spread" for x in a[0].args):
                out = []
                for j, x in enumerate(a[0].args):
                    if j:
                        out.append(r)
                    out.append(x)
                return self.strcat(out)
        if name == "format" and r.op == "const" and isinstance(r.args[0], str) and not k:
            import string
            try:
                parts = list(string.Formatter().parse(r.args[0]))
            except ValueError:
                parts = None
            if parts is not None and all((not f) and not sp and not cv for _, f, sp, cv in parts if f is not None):
                out, j = [], 0
                for lit, f, sp, cv in parts:
                    if lit:
                        out.append(const(lit))
                    if f is not None and j < len(a):
                        out.append(self.tostr(a[j]))
                        j += 1
                return self.strcat(out)
        if name == "astype":
            kd = dict(k)
            if a:
                kd["dtype"] = a[0]
                a = a[1:]
            if not a and sorted(kd) == ["dtype"] and kd["dtype"].op == "glob" and kd["dtype"].args[0] in INT_TYPES and a_glob(r) == "numpy.arange":
                return r
            if kd.get("dtype", NONE).op == "glob" and kd["dtype"].args[0] in DTYPES:
                kd["dtype"] = N("glob", DTYPES[kd["dtype"].args[0]])
            if kd.get("copy") in (TRUE, FALSE):
                del kd["copy"]
            k = tuple(sorted(kd.items()))
        if name == "tolist" and not a and r.op == "list":
            return r
        if name == "__iter__" and not a:
            return self.fcall(N("glob", "builtins.iter"), (r,), ())
        if name == "__len__" and not a:
            return self.flen(r)
        if name == "conj" and not a:
            return N("call", N("glob", "numpy.conj"), (r,), ())
        k = tuple((p, v) for p, v in k if not ((name, p) in DEFMKW and v is const(DEFMKW[(name, p)]))) if not (t and t[0] == "cls") else k
        return N("method", name, r, a, tuple(sorted(k)))

    # ------------------------------------------------------------ binders
    def _split(self, n):
        a = n.args
        o = n.op
        if o in ("flatmap", "mcat", "exists"):
            lid, dom, E, y, s = a
            return NONE, lid, dom, E, (y,), s
        if o in ("first", "evmap"):
            lid, dom, E, c, y, s = a
            return NONE, lid, dom, E, (c, y), s
        init, lid, dom, E, y, s = a
        return init, lid, dom, E, (y,), s

    def _join(self, o, init, lid, dom, E, ys, s):
        if o in ("flatmap", "mcat", "exists"):
            return N(o, lid, dom, E, ys[0], s)
        if o in ("first", "evmap"):
            return N(o, lid, dom, E, ys[0], ys[1], s)
        return N(o, init, lid, dom, E, ys[0], s)

    def c_binder(self, n):
        init, lid, dom, E, ys, s = self._split(n)
        if dom.op == "dom" and dom.args[0] is const("w"):
            d = N("dom", const("w"), self.b(dom.args[1]))
            doms = [d]
        else:
            d = self.c(dom)
        el = N("elem", lid)
        info = self.I.loopinfo.get(lid)
        if info and info.get("etype") is not None:
            self.btypes[el] = info["etype"]
        ci = self.c(init)
        cE = self.b(E)
        cys = []
        for j, y in enumerate(ys):
            cys.append(self.b(y) if (n.op == "exists" or (n.op in ("first", "evmap") and j == 0)) else self.c(y))
        if n.op == "aflat":
            cys = [self.lift(lambda y: self.stores(ci, y), [y]) for y in cys]
        cs = tuple((k, self.c(i), self.c(x)) for k, i, x in s)
        # decisions in the domain, the initial value or the carried initial values
        flat = [d, ci] + [i for k, i, x in cs]

        def f(d, ci, *inits):
            sysm = tuple((k, i, x) for (k, _, x), i in zip(cs, inits))
            return self.binder_canon(n.op, ci, lid, d, cE, tuple(cys), sysm)

        return self.lift(f, flat)

    c_flatmap = c_mcat = c_exists = c_dflat = c_aflat = c_msum = c_lout = c_first = c_evmap = c_binder

    def stores(self, b, y):
        """what one round stores, with indices in normal form"""
        if y.op != "list" or not all(z.op == "list" and len(z.args) == 2 for z in y.args):
            return y
        return N("list", *[N("list", self.spelled(b, self.leading(z.args[0])), z.args[1]) for z in y.args])

    def c_dom(self, n):
        return self.lift(lambda k, d: N("dom", k, d), [self.c(n.args[0]), self.c(n.args[1])])

    def depends(self, n, lid):
        return contains(n, lambda x: x.op in ("iv", "elem", "cv") and x.args[0] == lid)

    def skeleton_atoms(self, n, out, seen):
        if n in seen:
            return
        seen.add(n)
        if n.op == "ite":
            if n.args[0] not in out:
                out.append(n.args[0])
            self.skeleton_atoms(n.args[1], out, seen)
            self.skeleton_atoms(n.args[2], out, seen)

    def restrict(self, n, atom, val, memo=None):
        if memo is None:
            memo = {}
        if n.op != "ite":
            return n
        r = memo.get(n)
        if r is not None:
            return r
        if n.args[0] is atom:
            r = self.restrict(n.args[1 if val else 2], atom, val, memo)
        else:
            r = self.mk(n.args[0], self.restrict(n.args[1], atom, val, memo), self.restrict(n.args[2], atom, val, memo))
        memo[n] = r
        return r

    def presuming(self, c, y):
        """y where c holds"""
        if y.op == "ite" and c.op == "ite":
            atoms = []
            self.skeleton_atoms(c, atoms, set())
            for a in atoms:
                for v in (True, False):
                    if self.restrict(c, a, not v) is FALSE:
                        y = self.restrict(y, a, v)
        return y

    def resub(self, n, m):
        return self.c(subst(n, m))

    def binder_canon(self, op, init, lid, dom, E, ys, sysm, depth=0):
        if op in ("first", "evmap"):
            ys = (ys[0], self.presuming(ys[0], ys[1]))
        if E not in (TRUE, FALSE) and op not in ("evmap", "lout"):
            # nothing reads what the turn that stops the loop leaves behind
            sysm = tuple((k, i, x if x.op in ("poly", "cv") else self.ite3(E, N("cv", lid, k), x)) for k, i, x in sysm)
        # while loops over a counter are counted loops
        kind = dom.args[0].args[0]
        if kind == "w" and depth < 20:
            r = self.while_to_for(op, init, lid, dom, E, ys, sysm, depth)
            if r is not None:
                return r
            dom, E, ys, sysm = self.while_norm(op, lid, dom, E, ys, sysm)
            r = self.counted(op, init, lid, dom, E, ys, sysm, depth)
            if r is not None:
                return r
            # a variable stepped by a constant each time round is its start plus the
            # steps so far
            for k, i, x in sysm:
                cv = N("cv", lid, k)
                if op == "lout" and ys[0] is cv:
                    continue
                st = {self.sub(l, cv) for l in self.leaves(x) if l is not cv}
                if len(st) == 1:
                    (st,) = st
                    if num(st) and self.ite3(E, cv, self.add(cv, st)) is x:
                        m = {cv: self.add(i, self.mul(st, N("iv", lid)))}
                        ns = tuple((k2, i2, self.resub(x2, m)) for k2, i2, x2 in sysm if k2 != k)
                        return self.rebinder(op, init, lid, N("dom", const("w"), self.resub(dom.args[1], m)), self.resub(E, m),
                                             tuple(self.resub(y, m) for y in ys), ns, depth + 1)
        # a variable computed from the counter alone at the end of each turn
        for k, i, x in sysm:
            cv = N("cv", lid, k)
            if x is cv or kind not in ("w", "n") or not contains(x, lambda y: y is N("iv", lid)):
                continue
            st = self.leaves(x) - {cv} if x.op == "ite" else {x}
            if len(st) != 1:
                continue
            (v,) = st
            if contains(v, lambda y: y.op in ("cv", "elem") and y.args[0] == lid) or not (v is x or self.ite3(E, cv, v) is x):
                continue
            v = self.resub(v, {N("iv", lid): self.sub(N("iv", lid), const(1))})
            if self.resub(v, {N("iv", lid): const(0)}) is i:
                m = {cv: v}
                ns = tuple((k2, i2, self.resub(x2, m)) for k2, i2, x2 in sysm if k2 != k)
                return self.rebinder(op, init, lid, N("dom", dom.args[0], self.resub(dom.args[1], m)), self.resub(E, m),
                                     tuple(self.resub(y, m) for y in ys), ns, depth + 1)
        # carried variables that are plain induction variables
        for k, i, x in sysm:
            cv = N("cv", lid, k)
            stepn = self.sub(x, cv) if x.op in ("poly",) else None
            if x is cv:
                stepn = const(0)
            if stepn is not None and not self.depends(stepn, lid) and stepn.op != "ite" and kind != "w":
                if kind == "n" or stepn is const(0):
                    rep = self.add(i, self.mul(stepn, N("iv", lid)))
                    m = {cv: rep}
                    ns = tuple((k2, i2, self.resub(x2, m)) for k2, i2, x2 in sysm if k2 != k)
                    return self.rebinder(op, init, lid, dom, self.resub(E, m), tuple(self.resub(y, m) for y in ys), ns, depth + 1)
        # result of a counted accumulation
        if op == "lout" and E is FALSE:
            y = ys[0]
            if y.op == "cv" and y.args[0] == lid and kind == "n":
                pass
            if not self.depends(y, lid) and y.op != "ite":
                if kind == "n":
                    ne = self.lt0(self.neg(dom.args[1]), True) if self.isint(dom.args[1]) else None
                    if ne is not None:
                        return self.ite3(ne, y, init)
            if kind == "n" and y.op != "ite" and not contains(y, lambda x: x.op == "cv" and x.args[0] == lid) and not sysm:
                # value of the last iteration
                last = self.sub(dom.args[1], const(1))
                ne = self.lt0(self.neg(dom.args[1]), True)
                return self.ite3(ne, self.resub(y, {N("iv", lid): last}), init)
        # a flag (or value) that one iteration may switch: an existence test
        if op == "lout" and len(sysm) == 1 and ys[0] is N("cv", lid, sysm[0][0]) and kind != "w":
            r = self.switch(init, lid, dom, E, sysm[0], depth)
            if r is not None:
                return r
        if op == "exists" and not sysm and E is not FALSE:
            # the first stop satisfying c: when c implies nothing else stops it
            # (c is part of E) the search is a plain existence test
            if self.bor(E, ys[0]) is ys[0]:
                E = FALSE
        # the value found by the iteration that stops the loop
        if op == "lout" and len(sysm) == 1 and ys[0] is N("cv", lid, sysm[0][0]) and kind != "w" and E not in (TRUE, FALSE):
            cv, x = ys[0], sysm[0][2]
            if not contains(E, lambda y: y is cv) and self.ite3(E, cv, x) is cv:
                vs = [v for v in self.leaves(x) if v is not cv]
                if len(vs) == 1 and not contains(vs[0], lambda y: y is cv) and self.ite3(E, vs[0], cv) is x:
                    ex = self.binder_canon("exists", NONE, lid, dom, E, (E,), (), depth + 1)
                    if ex is not FALSE:
                        return self.ite3(ex, self.binder_canon("first", NONE, lid, dom, E, (E, vs[0]), (), depth + 1), init)
        # unroll over literal domains
        n = None
        if kind == "n" and num(dom.args[1]) and fr(dom.args[1].args[0]).denominator == 1 and E is FALSE and not sysm:
            n = int(fr(dom.args[1].args[0]))
            if n <= 0:
                return self.empty(op, init)
            if n <= 12 and op not in ("first",):
                return self.unroll(op, init, ys, [{N("iv", lid): const(j)} for j in range(n)])
        if kind == "n" and num(dom.args[1]) and fr(dom.args[1].args[0]).denominator == 1 and (sysm or E is not FALSE):
            n = int(fr(dom.args[1].args[0]))
            if n <= 0:
                return self.empty(op, init)
            if 0 < n <= 4 and op == "first" and not sysm:
                at = [{N("iv", lid): const(j)} for j in range(n)]
                r = self.resub(ys[1], at[-1])
                for m in reversed(at[:-1]):
                    r = self.ite3(self.b(subst(ys[0], m)), self.resub(ys[1], m), r)
                return r
            if n <= 4 and op in ("lout", "flatmap", "exists", "msum", "mcat") and (op != "lout" or ys[0].op == "cv"):
                return self.unroll_state(op, init, lid, n, E, ys[0], sysm)
        if op == "dflat" and init.op == "dict" and not init.args[0] and kind == "d" and E is FALSE and not sysm:
            # a dictionary without some of its keys
            el = N("elem", lid)
            src = dom.args[1].args[0] if dom.args[1].op == "keys" else None
            if src is not None:
                y, gone = ys[0], []
                while y.op == "ite" and y.args[1].op == "dict" and not y.args[1].args[0] and y.args[0].op == "eqv" and el in y.args[0].args[:2]:
                    a = y.args[0]
                    k = a.args[1] if a.args[0] is el else a.args[0]
                    if k.op != "const":
                        break
                    gone.append(k)
                    y = y.args[2]
                if y.op == "dict" and len(y.args[0]) == 1 and y.args[0][0][0] is el and y.args[0][0][1] is self.fidx(src, el):
                    return self.mkdict(src, tuple((k, N("del")) for k in sorted(gone, key=digest)))
        if kind == "d" and dom.args[1].op == "keys" and dom.args[1].args[0].op == "dict" and E is FALSE and not sysm and op != "first":
            ks = [k for k, v in dom.args[1].args[0].args[0]]
            if len(ks) <= 40 and all(k.op == "const" for k in ks):
                return self.unroll(op, init, ys, [{N("elem", lid): k} for k in ks])
        # fusion with a list-building loop being iterated
        if kind == "n" and E is FALSE:
            r = self.fuse(op, init, lid, dom, ys, sysm, depth)
            if r is not None:
                return r
        if kind == "d" and dom.args[1].op == "keys" and dom.args[1].args[0].op == "dflat":
            d = dom.args[1].args[0]
            i2, l2, dom2, E2, y2, s2 = d.args
            if i2.op == "dict" and not i2.args[0] and E2 is FALSE and not s2 and y2.op == "dict" and len(y2.args[0]) == 1:
                m0 = {N("iv", l2): N("iv", lid), N("elem", l2): N("elem", lid)}
                key = subst(y2.args[0][0][0], m0)
                val = subst(y2.args[0][0][1], m0)
                if key is not N("elem", lid):
                    m = {N("idx", d, N("elem", lid)): val, N("elem", lid): key}
                    m1 = {N("idx", d, N("elem", lid)): N("bvv", "v!"), }
                    f = lambda t: self.c(subst(subst(subst(t, m1), {N("elem", lid): N("bvv", "k!")}), {N("bvv", "v!"): val, N("bvv", "k!"): key}))
                    return self.rebinder(op, init, lid, dom2, f(E), tuple(f(y) for y in ys), tuple((k, i, f(x)) for k, i, x in sysm), depth + 1)
                f = lambda t: self.c(subst(t, {N("idx", d, N("elem", lid)): val}))
                return self.rebinder(op, init, lid, dom2, f(E), tuple(f(y) for y in ys), tuple((k, i, f(x)) for k, i, x in sysm), depth + 1)
        # decisions the range of the counter settles
        if kind == "n" and depth < 40:
            atoms, seen = [], set()
            for t in (E,) + tuple(ys) + tuple(x for _, _, x in sysm):
                self.skeleton_atoms(t, atoms, seen)
            for a in atoms:
                v = self.in_range(a, lid, dom.args[1])
                if v is not None:
                    m = {}
                    return self.binder_canon(op, init, lid, dom, self.restrict(E, a, v, m), tuple(self.restrict(y, a, v, m) for y in ys),
                                             tuple((k, i, self.restrict(x, a, v, m)) for k, i, x in sysm), depth + 1)
            r = self.shorter(op, init, lid, dom, E, ys, sysm, atoms, depth)
            if r is not None:
                return r
        if kind == "d" and depth < 40:
            el = N("elem", lid)
            m = {}
            for t in (E,) + tuple(ys) + tuple(x for _, _, x in sysm):
                for x in walk(t):
                    if x.op == "in" and x.args[0] is el and x not in m and self.within(dom.args[1], x.args[1]):
                        m[x] = TRUE
            if m:
                return self.rebinder(op, init, lid, dom, self.b(subst(E, m)), tuple(self.b(subst(y, m)) if j == 0 and op in ("exists", "first", "evmap") else self.resub(y, m) for j, y in enumerate(ys)),
                                     tuple((k, i, self.resub(x, m)) for k, i, x in sysm), depth + 1)
        # loop-invariant decisions move out
        atoms, seen = [], set()
        for t in (E,) + tuple(ys) + tuple(x for _, _, x in sysm):
            self.skeleton_atoms(t, atoms, seen)
        inv = [a for a in atoms if not self.depends(a, lid)]
        if inv:
            a = min(inv, key=digest)
            rs = []
            for val in (True, False):
                m = {}
                rs.append(self.binder_canon(op, init, lid, dom, self.restrict(E, a, val, m), tuple(self.restrict(y, a, val, m) for y in ys),
                                            tuple((k, i, self.restrict(x, a, val, m)) for k, i, x in sysm), depth + 1))
            return self.ite3(self.atom(a), rs[0], rs[1])
        # drop unreachable carried variables
        need, work = set(), list(ys) + [E, dom]
        nx = {k: x for k, i, x in sysm}
        while work:
            t = work.pop()
            for x in walk(t):
                if x.op == "cv" and x.args[0] == lid and x.args[1] in nx and x.args[1] not in need:
                    need.add(x.args[1])
                    work.append(nx[x.args[1]])
        sysm = tuple(s for s in sysm if s[0] in need)
        # trivial results
        if op == "flatmap" and ys[0].op == "list" and not ys[0].args:
            return ys[0]
        if op == "exists" and ys[0] is FALSE:
            return FALSE
        if op == "exists" and ys[0] is TRUE and E in (TRUE, FALSE) and kind == "n" and self.isint(dom.args[1]):
            return self.lt0(self.neg(dom.args[1]), True)
        if op == "dflat" and ys[0].op == "dict" and not ys[0].args[0]:
            return init
        if op == "aflat" and ys[0].op == "list" and not ys[0].args:
            return init
        if op == "msum" and ys[0] is const(0):
            return init
        if op == "evmap" and ys[0] is FALSE:
            return N("noevent")
        if op == "flatmap" and E is FALSE and not sysm and kind == "n" and ys[0].op == "list" and len(ys[0].args) == 1:
            e = ys[0].args[0]
            # [xs[i] for i in range(len(xs))] is xs
            if e.op == "idx" and e.args[1] is N("iv", lid) and not self.depends(e.args[0], lid) and dom.args[1] is self.flen(e.args[0]):
                return e.args[0]
        if op == "flatmap" and E is FALSE and not sysm and kind == "d" and ys[0].op == "list" and len(ys[0].args) == 1 and ys[0].args[0] is N("elem", lid) and dom.args[1].op in ("keys",):
            return dom.args[1]
        return self.name_binder(op, init, lid, dom, E, ys, sysm)

    def within(self, d, xs, depth=0):
        """is every element of the domain d certainly one of xs?"""
        if d is xs or d.op == "keys" and d.args[0] is xs:
            return True
        if d.op == "keys" and d.args[0].op == "dflat" and depth < 10:
            i2, l2, dom2, E2, y2, s2 = d.args[0].args
            if not (i2.op == "dict" and not i2.args[0] and not s2 and dom2.args[0] is const("d")):
                return False
            for z in self.leaves(y2):
                if z.op != "dict" or any(k is not N("elem", l2) for k, _ in z.args[0]):
                    return False
            return self.within(dom2.args[1], xs, depth + 1)
        return False

    def shorter(self, op, init, lid, dom, E, ys, sysm, atoms, depth):
        """a counted loop that does nothing from some count on ends there"""
        iv = N("iv", lid)
        if op not in ("flatmap", "mcat", "exists", "dflat", "aflat", "msum", "evmap", "lout"):
            return None
        for a in atoms:
            if a.op != "lt0" or len(a.args) < 2 or not a.args[1]:
                continue
            m = self.topoly(a.args[0])
            if m.get(((iv, 1),)) not in (1, -1) or any(mono != ((iv, 1),) and any(self.depends(x, lid) for x, _ in mono) for mono in m):
                continue
            up = m[((iv, 1),)] == -1             # k - i < 0: holds from k + 1 on; i + k < 0: fails from -k on
            rest = self.sub(a.args[0], self.mul(cnum(m[((iv, 1),)]), iv))
            end = self.add(rest, const(1)) if up else self.neg(rest)
            memo = {}
            y = self.restrict(ys[0], a, up, memo)
            if op == "lout":
                if not (y.op == "cv" and y.args[0] == lid and any(k == y.args[1] for k, _, _ in sysm)):
                    continue
            elif y is not (self.EMPTY_Y[op] if op in self.EMPTY_Y else FALSE):
                continue
            if any(self.restrict(x, a, up, memo) is not N("cv", lid, k) for k, _, x in sysm):
                continue
            memo = {}
            E2, ys2 = self.restrict(E, a, not up, memo), tuple(self.restrict(y, a, not up, memo) for y in ys)
            s2 = tuple((k, i, self.restrict(x, a, not up, memo)) for k, i, x in sysm)
            n2 = self.ite3(self.lt0(self.sub(end, dom.args[1]), True), end, dom.args[1])
            return self.lift(lambda n: self.rebinder(op, init, lid, N("dom", const("n"), n), E2, ys2, s2, depth + 1), [n2])
        return None

    def in_range(self, a, lid, n):
        """the value of a comparison that holds, or fails, for every counter
        value in 0 .. n-1"""
        if a.op not in ("lt0", "eq0") or len(a.args) < 2 or not a.args[1]:
            return None
        iv = N("iv", lid)
        m = self.topoly(a.args[0])
        k = m.get(((iv, 1),))
        if k is None or any(mono and mono != ((iv, 1),) and any(self.depends(b, lid) for b, _ in mono) for mono in m):
            return None
        rest = self.sub(a.args[0], self.mul(cnum(k), iv))
        ends = [rest, self.add(rest, self.mul(cnum(k), self.sub(n, const(1))))]
        lo, hi = ends if k > 0 else ends[::-1]
        lt = self.lt0(hi, True)
        if lt is TRUE:
            return a.op == "lt0"
        if a.op == "lt0":
            return False if self.lt0(lo, True) is FALSE else None
        return False if self.lt0(self.neg(lo), True) is TRUE else None

    def switch(self, init, lid, dom, E, carried, depth):
        k, i, x = carried
        cv = N("cv", lid, k)
        target = []

        def hit(t, flag):
            """condition under which the carried variable takes the new value"""
            if t.op == "ite":
                a = t.args[0]
                if a.op == "truth" and a.args[0] is cv:
                    return None
                h, l = hit(t.args[1], flag), hit(t.args[2], flag)
                if h is None or l is None:
                    return None
                return self.ite3(self.atom(a), h, l)
            if t is cv or t is flag:
                return FALSE
            if self.depends(t, lid):
                return None
            if not target:
                target.append(t)
            return TRUE if t is target[0] else None

        at = N("truth", cv)
        flag = None
        if i in (TRUE, FALSE):
            on = self.restrict(x, at, True)
            off = self.restrict(x, at, False)
            if on is not off:
                # only the switch away from the initial value counts
                live, dead = (on, off) if i is TRUE else (off, on)
                other = FALSE if i is TRUE else TRUE
                if any(t is not other and t is not cv for t in self.leaves(dead)):
                    return None
                x, flag = live, i
                target.append(other)
        c = hit(x, flag)
        if c is None or not target or contains(c, lambda y: y is cv):
            return None
        if contains(E, lambda y: y is cv):
            if i not in (TRUE, FALSE):
                return None
            # leaving the loop once the flag is switched does not change it
            E = self.restrict(E, at, i is TRUE)
            if contains(E, lambda y: y is cv):
                return None
        ex = self.binder_canon("exists", NONE, lid, dom, E, (c,), (), depth + 1)
        return self.ite3(ex, target[0], init)

    def leaves(self, t):
        if t.op == "ite":
            return self.leaves(t.args[1]) | self.leaves(t.args[2])
        return {t}

    def rebinder(self, op, init, lid, dom, E, ys, sysm, depth):
        def f(d, ci, *inits):
            s = tuple((k, i, x) for (k, _, x), i in zip(sysm, inits))
            return self.binder_canon(op, ci, lid, d, E, ys, s, depth)

        if depth > 30:
            raise Blowup("binder depth")
        return self.lift(f, [dom, init] + [i for _, i, _ in sysm])

    def empty(self, op, init):
        if op == "flatmap":
            return N("list")
        if op == "mcat":
            return const("")
        if op == "exists":
            return FALSE
        if op == "evmap":
            return N("noevent")
        return init

    def unroll(self, op, init, ys, maps):
        if op == "flatmap":
            r = N("list")
            for m in maps:
                r = self.lift(self.concat, [r, self.resub(ys[0], m)])
            return r
        if op == "mcat":
            return self.lift(lambda *xs: self.strcat(xs), [self.resub(ys[0], m) for m in maps])
        if op == "exists":
            r = FALSE
            for m in maps:
                r = self.bor(r, self.boolof(self.resub(ys[0], m)))
            return r
        if op == "msum":
            r = init
            for m in maps:
                r = self.lift(self.add, [r, self.resub(ys[0], m)])
            return r
        if op == "dflat":
            r = init
            for m in maps:
                y = self.resub(ys[0], m)
                r = self.lift(self.dextend, [r, y])
            return r
        if op == "aflat":
            r = init
            for m in maps:
                y = self.resub(ys[0], m)
                r = self.lift(self.aextend, [r, y])
            return r
        if op == "lout":
            r = init
            y = self.resub(ys[0], maps[-1])
            return y
        if op == "evmap":
            return N("evs", tuple(N("ev1", self.resub(ys[0], m), self.resub(ys[1], m)) for m in maps))
        raise Blowup("unroll " + op)

    def unroll_state(self, op, init, lid, n, E, y, sysm):
        comb = {"flatmap": self.concat, "mcat": lambda a, b: self.strcat((a, b)), "exists": None, "msum": self.add}.get(op)

        def go(j, vals, acc):
            if j == n:
                return vals[y.args[1]] if op == "lout" else acc
            m = {N("iv", lid): const(j)}
            for k, v in vals.items():
                m[N("cv", lid, k)] = v
            e = self.boolof(self.resub(E, m))
            nv = {k: self.resub(x, m) for k, i, x in sysm}
            if op == "lout":
                a2 = None
                now = nv[y.args[1]]
            else:
                z = self.resub(y, m)
                a2 = self.bor(acc, self.boolof(z)) if op == "exists" else self.lift(comb, [acc, z])
                now = a2
            if e is TRUE:
                return now
            rest = go(j + 1, nv, a2)
            return rest if e is FALSE else self.ite3(e, now, rest)

        return go(0, {k: i for k, i, x in sysm}, None if op == "lout" else init if op == "msum" else self.empty(op, init))

    def dextend(self, r, y):
        if y.op == "dict":
            return self.mkdict(r, y.args[0])
        return N("dmerge", r, y)

    def aextend(self, r, y):
        if y.op == "list" and all(e.op == "list" and len(e.args) == 2 for e in y.args):
            for e in y.args:
                r = self.aset(r, e.args[0], e.args[1])
            return r
        return N("aflat", r, "u", N("dom", const("n"), const(1)), FALSE, y, ())

    def fuse(self, op, init, lid, dom, ys, sysm, depth):
        """iterating a list that was itself built by a loop"""
        d = dom.args[1]
        iv = N("iv", lid)
        src = None
        for t in ys + tuple(x for _, _, x in sysm):
            for x in walk(t):
                if x.op == "idx" and x.args[1] is iv and x.args[0].op == "flatmap":
                    src = x.args[0]
                    break
            if src is not None:
                break
        if src is None or self.flen(src) is not d:
            return None
        nm, dom2, E2, y2, s2 = src.args
        if E2 is not FALSE or s2 or sysm:
            return None
        pl = N("idx", src, iv)
        mark = N("bvv", "f!")
        ys1 = tuple(subst(y, {pl: mark}) for y in ys)
        if any(contains(y, lambda x: x is iv) for y in ys1):
            return None
        if op not in ("flatmap", "dflat", "aflat", "msum", "exists", "evmap"):
            return None
        nl = "f%d" % lid if isinstance(lid, int) else "f" + str(lid)
        y2 = subst(y2, {N("iv", nm): N("iv", nl), N("elem", nm): N("elem", nl)})
        if N("elem", nm) in self.btypes:
            self.btypes[N("elem", nl)] = self.btypes[N("elem", nm)]

        def emit(y2):
            if y2.op == "ite":
                h, l = emit(y2.args[1]), emit(y2.args[2])
                if h is None or l is None:
                    return None
                return tuple(self.ite3(self.atom(y2.args[0]), a, b) for a, b in zip(h, l))
            if y2.op == "list" and not any(x.op == "spread" for x in y2.args):
                if len(y2.args) == 0:
                    z = {"flatmap": (N("list"),), "dflat": (N("dict", ()),), "aflat": (N("list"),), "msum": (const(0),), "exists": (FALSE,)}.get(op)
                    if op == "evmap":
                        z = (FALSE, N("noevent"))
                    return z
                if len(y2.args) == 1:
                    return tuple(self.c(subst(y, {mark: y2.args[0]})) for y in ys1)
            lone = y2.op == "list" and len(y2.args) == 1 and y2.args[0].op == "spread"
            if (lone or y2.op != "list") and op in ("flatmap", "exists", "msum"):
                xs = y2.args[0].args[0] if lone else y2
                l3 = nl + "s"
                if contains(xs, lambda x: x.op == "iv" and x.args[0] == l3):
                    return None
                inner = tuple(self.c(subst(y, {mark: N("idx", xs, N("iv", l3))})) for y in ys1)
                ini = const(0) if op == "msum" else NONE
                r = self.rebinder(op, ini, l3, N("dom", const("n"), self.flen(xs)), FALSE, inner, (), depth + 1)
                if op == "exists":
                    r = self.boolof(r)
                return (self.lift(lambda z: self.mklist([N("spread", z)]), [r]) if op == "flatmap" else r,)
            return None

        y2 = self.c(y2)
        nys = emit(y2)
        if nys is None:
            return None
        return self.rebinder(op, init, nl, dom2, FALSE, nys, (), depth + 1)

    EMPTY_Y = {"flatmap": N("list"), "mcat": const(""), "exists": FALSE, "dflat": N("dict", ()), "aflat": N("list"), "msum": const(0)}

    def while_norm(self, op, lid, dom, E, ys, sysm):
        """`while t: ...` is `while True: if not t: break ...`; what an iteration
        that leaves the loop does to variables nobody reads afterwards is moot"""
        t = dom.args[1]
        cvs = {k: N("cv", lid, k) for k, _, _ in sysm}
        out = ys[0] if op == "lout" else None
        if op == "lout" and out not in cvs.values():
            return dom, E, ys, sysm
        if t is not TRUE:
            E2 = self.bor(self.bnot(t), E)
            if op in self.EMPTY_Y:
                ys = (self.ite3(t, ys[0], self.EMPTY_Y[op]),)
            elif op in ("first", "evmap"):
                ys = (self.band(t, ys[0]), ys[1])
            sysm = tuple((k, i, self.ite3(t, x, cvs[k])) for k, i, x in sysm)
            dom = N("dom", const("w"), TRUE)
            E = E2
        sysm = tuple((k, i, x if cvs[k] is out else self.ite3(E, cvs[k], x)) for k, i, x in sysm)
        return dom, E, ys, sysm

    def counted(self, op, init, lid, dom, E, ys, sysm, depth):
        """`while True` left by one test of a counter before anything is done"""
        if dom.args[1] is not TRUE or E.op != "ite" or E.args[0].op != "lt0" or op not in self.EMPTY_Y and op != "lout":
            return None
        if not all(x.op == "const" for x in E.args[1:]):
            return None
        a, stop = E.args[0], E.args[1] is TRUE
        go = []
        for k, i, x in sysm:
            if self.restrict(x, a, stop) is not N("cv", lid, k):
                return None
            go.append((k, i, self.restrict(x, a, not stop)))
        if op in self.EMPTY_Y:
            if self.restrict(ys[0], a, stop) is not self.EMPTY_Y[op]:
                return None
            ys = (self.restrict(ys[0], a, not stop),)
        return self.while_to_for(op, init, lid, N("dom", const("w"), self.bnot(E)), FALSE, ys, tuple(go), depth)

    def while_to_for(self, op, init, lid, dom, E, ys, sysm, depth):
        test = dom.args[1]
        # test must be a single atom "cv - n < 0" with cv an induction variable
        if test.op != "ite":
            return None
        a = test.args[0]
        pos = test.args[1] is TRUE and test.args[2] is FALSE
        neg = test.args[1] is FALSE and test.args[2] is TRUE
        if not (pos or neg) or a.op != "lt0":
            return None
        for k, i, x in sysm:
            cv = N("cv", lid, k)
            st = self.sub(x, cv) if x.op == "poly" else None
            if st is None or not num(st):
                continue
            m = self.topoly(a.args[0])
            mono = ((cv, 1),)
            if mono not in m:
                continue
            rest = self.frompoly({q: v for q, v in m.items() if q != mono})
            if self.depends(rest, lid):
                continue
            s = fr(st.args[0])
            cf = m[mono]
            if s == 1 and cf == 1 and pos:
                n = self.sub(self.neg(rest), i)     # cv + rest < 0
            elif s == 1 and cf == -1 and neg:
                n = self.add(self.sub(rest, i), const(1))     # not(rest - cv < 0): cv <= rest
            else:
                continue
            d2 = N("dom", const("n"), n)
            return self.rebinder(op, init, lid, d2, E, ys, sysm, depth + 1)
        return None

    def height(self, *ns):
        h = 0
        for n in ns:
            for x in walk(n):
                if x.op in BINDERS:
                    l = x.args[BINDERS[x.op]]
                    if isinstance(l, str) and l.startswith("b"):
                        h = max(h, int(l[1:]))
        return h

    def name_binder(self, op, init, lid, dom, E, ys, sysm):
        h = self.height(dom, E, *(list(ys) + [x for _, _, x in sysm])) + 1
        nm = "b%d" % h
        # colour carried variables
        order = [s[0] for s in sysm]
        if len(order) > 1:
            col = {k: digest(i) for k, i, x in sysm}
            for _ in range(4):
                new = {}
                for k, i, x in sysm:
                    m = {N("cv", lid, j): N("bvv", col[j] + ("*" if j == k else "")) for j in order}
                    new[k] = digest(subst(x, m)) + col[k]
                import hashlib
                col = {k: hashlib.sha1(v.encode()).hexdigest()[:16] for k, v in new.items()}
            order.sort(key=lambda k: col[k])
        pos = {k: j for j, k in enumerate(order)}
        if lid == nm and all(k == pos[k] for k in order):
            return self._join(op, init, nm, dom, E, ys, tuple(sorted(sysm)))
        if any(self.depends(t, nm) for t in (E,) + tuple(ys)) and lid != nm:
            # an outer placeholder of the same name is free here: rename apart
            nm = nm + "x"
        m = {N("iv", lid): N("iv", nm), N("elem", lid): N("elem", nm)}
        for k in order:
            m[N("cv", lid, k)] = N("cv", nm, pos[k])
        if N("elem", lid) in self.btypes:
            self.btypes[N("elem", nm)] = self.btypes[N("elem", lid)]
        f = lambda t: self.c(subst(t, m))
        d2 = dom if dom.args[0] is not const("w") else N("dom", const("w"), f(dom.args[1]))
        s2 = tuple(sorted((pos[k], i, f(x)) for k, i, x in sysm))
        return self._join(op, init, nm, d2, f(E), tuple(f(y) for y in ys), s2)


def a_glob(n):
    if n.op == "call" and n.args[0].op == "glob":
        return n.args[0].args[0]
    return None
