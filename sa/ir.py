"""Hash-consed value-graph nodes.

A Node is (op, args).  args are Nodes, primitives, or (nested) tuples of both.
Nodes are interned, so identity is structural equality.
"""
import hashlib

_TABLE = {}


class Node(object):
    __slots__ = ("op", "args", "_dig", "_ops", "__weakref__")

    def __repr__(self):
        return show(self, 6)


def _key(op, args):
    def k(a):
        if isinstance(a, Node):
            return ("N", id(a))
        if isinstance(a, tuple):
            return tuple(k(x) for x in a)
        return (type(a).__name__, repr(a))

    return (op, tuple(k(a) for a in args))


def N(op, *args):
    key = _key(op, args)
    n = _TABLE.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        n._dig = None
        n._ops = None
        _TABLE[key] = n
    return n


def kids(n):
    out = []

    def rec(a):
        if isinstance(a, Node):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                rec(x)

    rec(n.args)
    return out


def digest(n):
    """Stable structural digest: independent of creation order."""
    if n._dig is not None:
        return n._dig
    stack = [n]
    while stack:
        x = stack[-1]
        if x._dig is not None:
            stack.pop()
            continue
        todo = [k for k in kids(x) if k._dig is None]
        if todo:
            stack.extend(todo)
            continue

        def s(a):
            if isinstance(a, Node):
                return a._dig
            if isinstance(a, tuple):
                return "(" + ",".join(s(y) for y in a) + ")"
            return type(a).__name__ + ":" + repr(a)

        x._dig = hashlib.sha1((x.op + "|" + s(x.args)).encode()).hexdigest()[:20]
        stack.pop()
    return n._dig


def mapargs(args, f):
    """Rebuild args with f applied to each Node."""

    def r(a):
        if isinstance(a, Node):
            return f(a)
        if isinstance(a, tuple):
            return tuple(r(x) for x in a)
        return a

    return tuple(r(a) for a in args)


def subst(n, mapping, memo=None):
    """Replace nodes by mapping (dict Node->Node), bottom-up, memoised."""
    if memo is None:
        memo = {}

    def rec(x):
        if x in mapping:
            return mapping[x]
        r = memo.get(x)
        if r is not None:
            return r
        na = mapargs(x.args, rec)
        r = x if na == x.args else N(x.op, *na)
        memo[x] = r
        return r

    return rec(n)


def contains(n, pred, memo=None):
    seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            return True
        stack.extend(kids(x))
    return False


def walk(n):
    seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(kids(x))


def const(v):
    return N("const", v)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)


def is_const(n, v=None):
    return n.op == "const"


# --------------------------------------------------------------------------
# pretty printing (reports only)
# --------------------------------------------------------------------------
_BIN = {"lt0": "< 0", "eq0": "== 0"}


def show(n, depth=8):
    if isinstance(n, tuple):
        return "(" + ", ".join(show(x, depth) for x in n) + ")"
    if not isinstance(n, Node):
        return repr(n)
    if depth <= 0:
        return "..."
    d = depth - 1
    o, a = n.op, n.args
    if o == "const":
        return repr(a[0])
    if o == "sym":
        return a[0]
    if o in ("glob", "func", "cls"):
        return str(a[0]).split("resistics.")[-1]
    if o == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if o == "idx":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == "call":
        pos = [show(x, d) for x in a[1]]
        kw = [f"{k}={show(v, d)}" for k, v in a[2]]
        return f"{show(a[0], d)}({', '.join(pos + kw)})"
    if o == "method":
        pos = [show(x, d) for x in a[2]]
        kw = [f"{k}={show(v, d)}" for k, v in a[3]]
        return f"{show(a[1], d)}.{a[0]}({', '.join(pos + kw)})"
    if o == "bin":
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if o == "poly":
        parts = []
        for mono, c in a[0]:
            fac = []
            for at, p in mono:
                fac.append(show(at, d) + (f"**{p}" if p != 1 else ""))
            m = "*".join(fac)
            if not m:
                parts.append(str(c))
            elif c == 1:
                parts.append(m)
            elif c == -1:
                parts.append("-" + m)
            else:
                parts.append(f"{c}*{m}")
        return "(" + " + ".join(parts) + ")"
    if o == "lt0":
        return f"[{show(a[0], d)} < 0]"
    if o == "eq0":
        return f"[{show(a[0], d)} == 0]"
    if o == "isnone":
        return f"[{show(a[0], d)} is None]"
    if o in ("ite", "phi"):
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if o == "raise":
        return f"raise {a[0]}"
    if o == "slice":
        return ":".join("" if (x.op == "const" and x.args[0] is None) else show(x, d) for x in a)
    if o in ("tuple", "list"):
        return "[" + ", ".join(show(x, d) for x in a) + "]"
    if o == "bv":
        return f"i{a[0]}"
    if o == "iv":
        return f"i@{a[0]}"
    return f"{o}<" + ", ".join(show(x, d) for x in a) + ">"
