"""Development aid: how sensitive are the checks?  Derives small edits of every
function of the package as syntax trees, judges each with the definitions that
reach the function, and lists the edits nothing reports.  Nothing is executed.

    python3 tools/mutate.py OUT.txt [module or function substring ...]
"""
import ast
import copy
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from sa.index import Index
from sa.contracts import SpecSet, Checker
from sa import rules

REPO = "/repo"
SKIP_CALLS = ("logger", "warn", "print")


class TreeIndex(Index):
    def __init__(self, trees):
        self.root, self.package = REPO, "resistics"
        self.modules, self.classes, self.funcs = {}, {}, {}
        for name, (rel, tree) in trees.items():
            self.add_module(name, rel, tree)
        self._link()


def trees():
    out = {}
    pkg = os.path.join(REPO, "resistics")
    for f in sorted(os.listdir(pkg)):
        if f.endswith(".py"):
            name = "resistics" if f == "__init__.py" else "resistics." + f[:-3]
            out[name] = (f"resistics/{f}", ast.parse(open(os.path.join(pkg, f)).read()))
    return out


def silent(n):
    """log, message and error-text expressions"""
    if isinstance(n, ast.Raise):
        return True
    if isinstance(n, ast.JoinedStr):
        return False
    if isinstance(n, ast.Call):
        f = n.func
        base = f
        while isinstance(base, ast.Attribute):
            base = base.value
        nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if isinstance(base, ast.Name) and base.id in SKIP_CALLS:
            return True
        if nm in ("append", "extend") and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and "messages" in f.value.id:
            return True
        if nm.endswith("Error") or nm in ("ValueError", "_get_record"):
            return True
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("messages", "message", "title", "outstr"):
        return True
    return False


def sites(fn):
    """(path, kind) of every edit; path = attribute/index steps from fn"""
    out = []

    def rec(n, path, top=False):
        if silent(n):
            if isinstance(n, ast.Raise):
                out.append((path, "pass"))
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0])
            for k in {ast.Lt: ["LtE", "GtE"], ast.LtE: ["Lt"], ast.Gt: ["GtE"], ast.GtE: ["Gt"], ast.Eq: ["NotEq"], ast.NotEq: ["Eq"],
                      ast.In: ["NotIn"], ast.NotIn: ["In"], ast.Is: ["IsNot"], ast.IsNot: ["Is"]}.get(o, []):
                out.append((path, "cmp:" + k))
        if isinstance(n, ast.BinOp):
            for k in {ast.Add: ["Sub"], ast.Sub: ["Add"], ast.Mult: ["Div"], ast.Div: ["Mult", "FloorDiv"], ast.FloorDiv: ["Div"], ast.Pow: ["Mult"], ast.Mod: ["Mult"]}.get(type(n.op), []):
                out.append((path, "bin:" + k))
        if isinstance(n, ast.BoolOp):
            out.append((path, "bool"))
        if isinstance(n, ast.UnaryOp):
            out.append((path, "unary"))
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append((path, "flip"))
            elif isinstance(n.value, (int, float)):
                out.append((path, "inc"))
            elif isinstance(n.value, str):
                out.append((path, "str"))
        if isinstance(n, ast.If):
            out.append((path, "neg"))
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Assign, ast.AnnAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if not (isinstance(n, ast.AnnAssign) and n.value is None):
                out.append((path, "pass"))
        if isinstance(n, (ast.Break, ast.Continue)):
            out.append((path, "pass"))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2:
                out.append((path, "swap"))
            for i, k in enumerate(n.keywords):
                if k.arg:
                    out.append((path, f"dropkw:{i}"))
        if isinstance(n, ast.Slice):
            for a in ("lower", "upper"):
                if getattr(n, a) is not None:
                    out.append((path, "sl:" + a))
        for name, v in ast.iter_fields(n):
            if name in ("decorator_list", "annotation", "returns", "ctx", "args") and isinstance(n, ast.FunctionDef):
                continue
            if name == "annotation":
                continue
            if isinstance(v, ast.AST):
                rec(v, path + ((name, None),))
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        if name == "body" and i == 0 and isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                            continue
                        rec(x, path + ((name, i),))

    rec(fn, ())
    # default values of arguments
    for i, d in enumerate(fn.args.defaults):
        if isinstance(d, ast.Constant) and d.value is not None:
            out.append(((("args", None), ("defaults", i)), "flip" if isinstance(d.value, bool) else "inc" if isinstance(d.value, (int, float)) else "str"))
    return out


def mutate(fn, path, kind):
    fn = copy.deepcopy(fn)
    parent, n = None, fn
    for a, i in path:
        parent = (n, a, i)
        n = getattr(n, a)
        if i is not None:
            n = n[i]
    before = ast.unparse(n)

    def put(x):
        p, a, i = parent
        ast.copy_location(x, n)
        if i is None:
            setattr(p, a, x)
        else:
            getattr(p, a)[i] = x
        return x

    k, _, v = kind.partition(":")
    if k == "cmp":
        n.ops = [getattr(ast, v)()]
    elif k == "bin":
        n.op = getattr(ast, v)()
    elif k == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif k == "unary":
        put(n.operand)
        n = n.operand
    elif k == "flip":
        n.value = not n.value
    elif k == "inc":
        n.value = n.value + 1
    elif k == "str":
        n.value = n.value + "x"
    elif k == "neg":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif k == "pass":
        n = put(ast.Pass())
    elif k == "swap":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif k == "dropkw":
        del n.keywords[int(v)]
    elif k == "sl":
        setattr(n, v, ast.BinOp(getattr(n, v), ast.Add(), ast.Constant(1)))
    ast.fix_missing_locations(fn)
    return fn, before[:160], ast.unparse(n)[:160]


_S = {}


def base_functions():
    ix = Index(REPO)
    ss = SpecSet(ix, os.path.join(HERE, "spec"))
    first = {}
    for i, c in enumerate(ss.contracts):          # one property per definition is enough
        first.setdefault((c.id, id(c.fn)), i)
    return sorted(first.values())


def run_base(i):
    ix = Index(REPO)
    ss = SpecSet(ix, os.path.join(HERE, "spec"))
    t = time.time()
    r = Checker(ix, ss).check(ss.contracts[i])
    return i, r.status, set(r.stats.get("functions", ())), time.time() - t


def job(a):
    qual, path, kind, cands = a
    T = _S.setdefault("trees", trees())
    mod = next(m for m in sorted(T, key=len, reverse=True) if qual.startswith(m + "."))
    rel, tree = T[mod]
    names = qual[len(mod) + 1:].split(".")

    def find(body, nm):
        return next(i for i, x in enumerate(body) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == nm)

    t2 = copy.copy(tree)
    t2.body = list(tree.body)
    holder = t2
    if len(names) == 2:
        i = find(t2.body, names[0])
        c = copy.copy(t2.body[i])
        c.body = list(c.body)
        t2.body[i] = c
        holder = c
    j = find(holder.body, names[-1])
    old = holder.body[j]
    fn, before, after = mutate(old, path, kind)
    line = None
    n = old
    for at, i in path:
        n = getattr(n, at)
        if i is not None:
            n = n[i]
        line = getattr(n, "lineno", line)
    holder.body[j] = fn
    T2 = dict(T)
    T2[mod] = (rel, t2)
    und = []
    t0 = time.time()
    for c in cands:
        ix = TreeIndex(T2)
        ss = SpecSet(ix, os.path.join(HERE, "spec"))
        ct = ss.contracts[c]
        try:
            r = Checker(ix, ss).check(ct)
        except Exception as e:
            und.append(f"{ct.id} CRASH {type(e).__name__}")
            continue
        if r.status == "violation":
            return qual, line, kind, before, after, "caught", ct.prop + " " + ct.id, time.time() - t0
        if r.status != "holds":
            und.append(f"{ct.id} {r.detail}"[:200])
    rules.ONLY = mod
    base = _S.get("rules" + mod)
    if base is None:
        base = _S["rules" + mod] = rulekeys(TreeIndex(T))
    new = rulekeys(TreeIndex(T2)) - base
    if new:
        return qual, line, kind, before, after, "caught", "rule " + " ".join(sorted(new)[0]), time.time() - t0
    return qual, line, kind, before, after, "undecided" if und else "MISSED", "; ".join(und[:2]), time.time() - t0


def rulekeys(ix):
    """keys of the findings of all rules (for the module under change)"""
    out = set()
    for p, rs in rules.RULES.items():
        for name, text, f in rs:
            res = rules.RuleResult(name, text)
            try:
                f(ix, res)
            except Exception as e:
                out.add((p, name, "CRASH " + repr(e)[:80]))
                continue
            out |= {(p, name, x.key) for x in res.findings}
    return out


def main():
    out = sys.argv[1]
    pats = sys.argv[2:]
    n = base_functions()
    with mp.Pool(8) as pool:
        base = pool.map(run_base, n, chunksize=4)
    reach = {}
    for i, st, fns, t in sorted(base, key=lambda x: x[3]):
        for f in fns:
            reach.setdefault(f, []).append(i)
    seen_ids = {}
    ix = Index(REPO)
    ss = SpecSet(ix, os.path.join(HERE, "spec"))
    jobs = []
    for q, f in sorted(ix.funcs.items()):
        if not rules.in_scope(f) or "<" in q or q.startswith("spec."):
            continue
        nm = q.rpartition(".")[2]
        if nm.startswith("plot") or nm in ("summary", "to_string", "__str__") or q.startswith("resistics.errors"):
            continue
        if pats and not any(p in q for p in pats):
            continue
        cands, ids = [], set()
        for i in reach.get(q, []):
            if ss.contracts[i].id not in ids:        # one property per definition is enough
                ids.add(ss.contracts[i].id)
                cands.append(i)
        for path, kind in sites(f.node):
            jobs.append((q, path, kind, cands))
    print(len(jobs), "edits", flush=True)
    t = time.time()
    cnt = {}
    with open(out, "w") as fo, mp.Pool(8) as pool:
        for r in pool.imap_unordered(job, jobs, chunksize=4):
            cnt[r[5]] = cnt.get(r[5], 0) + 1
            if r[5] != "caught":
                fo.write("\t".join(str(x).replace("\n", " ") for x in r) + "\n")
                fo.flush()
    print(cnt, round(time.time() - t), "s")


if __name__ == "__main__":
    main()
