"""Whole-package index of the analysed source: modules, classes (with MRO),
functions, declared fields and a light declared-type model."""
import ast
import os


class AnalysisError(Exception):
    """The analysis cannot answer (anchor vanished, source does not parse)."""


class Func(object):
    def __init__(self, qual, module, cls, node, kind):
        self.qual = qual          # e.g. resistics.window.Windower.run
        self.module = module      # Module
        self.cls = cls            # ClassInfo or None
        self.node = node
        self.kind = kind          # func | method | static | class | prop
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.ann = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        self.defaults = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self.defaults[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[p.arg] = d

    @property
    def short(self):
        return self.qual.replace("resistics.", "", 1)

    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"


class ClassInfo(object):
    def __init__(self, qual, module, node):
        self.qual = qual
        self.name = node.name
        self.module = module
        self.node = node
        self.methods = {}
        self.fields = {}      # name -> (annotation ast | None, default ast | None)
        self.order = []
        self.config = {}
        self.bases = []       # ClassInfo or dotted str
        self.subs = []
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = "class" if st.name in ("__init_subclass__", "__class_getitem__") else "method"
                validator = None
                for d in st.decorator_list:
                    dn = d.func if isinstance(d, ast.Call) else d
                    nm = dn.id if isinstance(dn, ast.Name) else getattr(dn, "attr", "")
                    if nm == "property":
                        kind = "prop"
                    elif nm == "staticmethod":
                        kind = "static"
                    elif nm == "classmethod":
                        kind = "class"
                    elif nm in ("validator", "root_validator"):
                        kind = "class"
                        validator = d
                f = Func(f"{qual}.{st.name}", module, self, st, kind)
                f.validator = validator
                self.methods[st.name] = f
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.fields[st.target.id] = (st.annotation, st.value)
                self.order.append(st.target.id)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                self.fields[st.targets[0].id] = (None, st.value)
                self.order.append(st.targets[0].id)
            elif isinstance(st, ast.ClassDef) and st.name == "Config":
                for s in st.body:
                    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                        self.config[s.targets[0].id] = s.value

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassInfo):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def ext_bases(self):
        out = []
        for c in self.mro():
            out += [b for b in c.bases if isinstance(b, str)]
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_super(self, after, name):
        m = self.mro()
        i = m.index(after) if after in m else -1
        for c in m[i + 1:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def field(self, name):
        for c in self.mro():
            if name in c.fields:
                return c.fields[name] + (c,)
        return None

    def all_fields(self):
        out = {}
        for c in reversed(self.mro()):
            for f in c.order:
                out[f] = c.fields[f] + (c,)
        return out

    def is_sub(self, name):
        return any(c.name == name for c in self.mro())

    def all_subs(self):
        out = []
        for s in self.subs:
            out.append(s)
            out += s.all_subs()
        return out

    def is_model(self):
        return "pydantic.BaseModel" in self.ext_bases()

    def __repr__(self):
        return f"<class {self.qual}>"


class Module(object):
    def __init__(self, name, rel, tree):
        self.name = name
        self.rel = rel
        self.tree = tree
        self.funcs = {}
        self.classes = {}
        self.imports = {}     # local name -> dotted
        self.assigns = {}     # name -> value ast


class Index(object):
    def __init__(self, root, package="resistics"):
        self.root = root
        self.package = package
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        pkg = os.path.join(root, package)
        if not os.path.isdir(pkg):
            raise AnalysisError(f"package directory {pkg} not found")
        for dp, dn, fn in os.walk(pkg):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                try:
                    tree = ast.parse(open(p, encoding="utf-8").read(), filename=p)
                except SyntaxError as e:
                    raise AnalysisError(f"{rel} does not parse: {e}")
                self.add_module(name, rel, tree)
        self._link()

    def add_module(self, name, rel, tree):
        m = Module(name, rel, tree)
        self.modules[name] = m
        self._scan(m, tree.body)
        return m

    def _scan(self, m, body):
        for st in body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                m.imports.update(import_map(st, m.name))
            elif isinstance(st, ast.FunctionDef):
                f = Func(f"{m.name}.{st.name}", m, None, st, "func")
                m.funcs[st.name] = f
                self.funcs[f.qual] = f
            elif isinstance(st, ast.ClassDef):
                c = ClassInfo(f"{m.name}.{st.name}", m, st)
                m.classes[st.name] = c
                self.classes[c.qual] = c
                for f in c.methods.values():
                    self.funcs[f.qual] = f
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                m.assigns[st.targets[0].id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.assigns[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try)):
                for b in (getattr(st, "body", []), getattr(st, "orelse", [])):
                    self._scan(m, b)
                for h in getattr(st, "handlers", []):
                    self._scan(m, h.body)

    def _link(self):
        for c in self.classes.values():
            for b in c.node.bases:
                d = dotted(b)
                r = self.resolve(c.module, d) if d else None
                if isinstance(r, ClassInfo):
                    c.bases.append(r)
                    r.subs.append(c)
                else:
                    c.bases.append(r if isinstance(r, str) else (d or "?"))

    # -- name resolution -------------------------------------------------
    def resolve_dotted(self, dt, seen=()):
        """Absolute dotted name -> ClassInfo | Func | ('assign', module, name) | Module | str"""
        if dt in self.classes:
            return self.classes[dt]
        if dt in self.funcs:
            return self.funcs[dt]
        if dt in self.modules:
            return self.modules[dt]
        if "." in dt:
            mod, _, nm = dt.rpartition(".")
            if mod in self.modules:
                m = self.modules[mod]
                if nm in m.assigns:
                    return ("assign", m, nm)
                if nm in m.imports and dt not in seen:
                    return self.resolve_dotted(m.imports[nm], seen + (dt,))
        return dt

    def resolve(self, module, name, local=None):
        head, _, rest = name.partition(".")
        base = None
        if local and head in local:
            base = local[head]
        elif head in module.classes or head in module.funcs or head in module.assigns:
            base = f"{module.name}.{head}"
        elif head in module.imports:
            base = module.imports[head]
        if base is None:
            return None
        return self.resolve_dotted(base + ("." + rest if rest else ""))

    # -- declared types ----------------------------------------------------
    def type_of_ann(self, ann, module):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant):
            if ann.value is None:
                return ("none",)
            if isinstance(ann.value, str):
                try:
                    return self.type_of_ann(ast.parse(ann.value, mode="eval").body, module)
                except SyntaxError:
                    return None
            return None
        if isinstance(ann, ast.Subscript):
            h = dotted(ann.value) or ""
            h = h.split(".")[-1]
            sl = ann.slice
            if isinstance(sl, ast.Index):  # pragma: no cover (old ast)
                sl = sl.value
            parts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            ts = [self.type_of_ann(p, module) for p in parts]
            if h == "Optional":
                return ts[0]
            if h == "Union":
                ts = [t for t in ts if t != ("none",)]
                if len(ts) == 1:
                    return ts[0]
                return ("union", tuple(ts))
            if h in ("List", "Sequence", "Iterable", "Iterator", "list", "Set", "set"):
                return ("list", ts[0])
            if h in ("Collection",):
                return ("coll", ts[0])
            if h in ("Dict", "dict", "Mapping"):
                return ("dict", ts[0], ts[-1])
            if h in ("Tuple", "tuple"):
                return ("tuple", tuple(ts))
            if h in ("Type",):
                return ("type",)
            return None
        d = dotted(ann)
        if d is None:
            if isinstance(ann, ast.Call):
                f = dotted(ann.func) or ""
                if f.startswith("con"):
                    return ("prim", {"conint": "int", "constr": "str", "confloat": "float"}.get(f, f))
            return None
        if d in ("int", "float", "str", "bool", "complex"):
            return ("prim", d)
        if d in ("list", "dict", "tuple", "set"):
            return {"list": ("list", None), "dict": ("dict", None, None), "tuple": ("tuple", ()), "set": ("list", None)}[d]
        if d in ("PositiveInt",):
            return ("prim", "int")
        if d in ("PositiveFloat",):
            return ("prim", "float")
        if d in ("Any", "Callable", "object"):
            return None
        r = self.resolve(module, d)
        if isinstance(r, ClassInfo):
            return ("cls", r.qual)
        if isinstance(r, tuple) and r[0] == "assign":
            return self.type_of_ann(r[1].assigns[r[2]], r[1])
        if isinstance(r, str):
            if r == "numpy.ndarray":
                return ("ndarray",)
            if r in ("pandas.DataFrame", "pandas.Series", "pandas.DatetimeIndex"):
                return ("ext", r)
            return ("ext", r)
        return None

    def attr_type(self, cls, name):
        """Declared type of an instance attribute."""
        f = cls.field(name)
        if f is not None and f[0] is not None:
            return self.type_of_ann(f[0], f[2].module)
        m = cls.find(name)
        if m is not None and m.kind == "prop":
            return self.type_of_ann(m.node.returns, m.module)
        for c in cls.mro():
            init = c.methods.get("__init__")
            if init is None:
                continue
            local = {}
            for st in ast.walk(init.node):
                pairs, ann = [], None
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) and len(t.elts) == len(st.value.elts):
                            pairs += list(zip(t.elts, st.value.elts))
                        else:
                            pairs.append((t, st.value))
                elif isinstance(st, ast.AnnAssign):
                    pairs, ann = [(st.target, st.value)], st.annotation
                for tgt, val in pairs:
                    if isinstance(tgt, ast.Name):
                        local[tgt.id] = None if tgt.id in local or tgt.id in init.ann else val
                    if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self" and tgt.attr == name:
                        if ann is not None:
                            return self.type_of_ann(ann, c.module)
                        t = self.init_type(val, init, c, local)
                        if t is not None:
                            return t
        return None

    def init_type(self, val, init, c, local, depth=0):
        """type of what a constructor keeps"""
        go = lambda v: self.init_type(v, init, c, local, depth + 1)
        if depth > 8:
            return None
        if isinstance(val, ast.Name):
            if val.id in init.ann:
                return self.type_of_ann(init.ann[val.id], c.module)
            return go(local[val.id]) if local.get(val.id) is not None else None
        if isinstance(val, ast.IfExp):
            return go(val.body) or go(val.orelse)
        if isinstance(val, ast.BoolOp):
            return next((t for t in map(go, val.values) if t is not None), None)
        if isinstance(val, ast.Call):
            d = dotted(val.func) or ""
            if d in ("dict", "list", "tuple", "sorted") and len(val.args) == 1 and not val.keywords:
                t = go(val.args[0])
                return t if t and t[0] == ("dict" if d == "dict" else "list") else None
            if isinstance(val.func, ast.Attribute) and val.func.attr == "copy" and not val.args:
                return go(val.func.value)
        return None

    def func(self, short):
        q = f"{self.package}.{short}"
        f = self.funcs.get(q)
        if f is not None:
            return f
        # a method may be inherited: resolve through the class's MRO; a
        # module-level function may be re-exported from another module
        if "." in q:
            head, _, nm = q.rpartition(".")
            c = self.classes.get(head)
            if c is None:
                r = self.resolve_dotted(head)
                c = r if isinstance(r, ClassInfo) else None
            if c is not None:
                m = c.find(nm)
                if m is not None:
                    return m
            r = self.resolve_dotted(q)
            if isinstance(r, Func):
                return r
        raise AnalysisError(f"anchor vanished: {q}")

    def cls(self, short):
        q = f"{self.package}.{short}"
        r = self.classes.get(q) or self.resolve_dotted(q)
        if not isinstance(r, ClassInfo):
            raise AnalysisError(f"anchor vanished: class {q}")
        return r


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return None if b is None else f"{b}.{n.attr}"
    return None


def import_map(st, modname):
    out = {}
    if isinstance(st, ast.Import):
        for a in st.names:
            if a.asname:
                out[a.asname] = a.name
            else:
                h = a.name.split(".")[0]
                out[h] = h
    else:
        mod = st.module or ""
        if st.level:
            base = modname.split(".")
            base = base[: len(base) - st.level + (0 if False else 0)] if st.level <= len(base) else []
            mod = ".".join(base + ([st.module] if st.module else []))
        for a in st.names:
            out[a.asname or a.name] = f"{mod}.{a.name}" if mod else a.name
    return out
