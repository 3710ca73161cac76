"""Comparison of canonical terms by joint case analysis.

Two canonical terms are walked together; every decision atom either side makes
splits the comparison, infeasible combinations (by interval reasoning on linear
forms and by mutual exclusion of tests on one value) are pruned, and at the
leaves the terms must agree structurally (congruence)."""
from fractions import Fraction

from .ir import N, Node, const, TRUE, FALSE, NONE, digest, subst, contains, walk, mapargs
from .canon import BINDERS, num, fr, a_glob, Blowup


PICKS = {"loc", "iloc", "at", "iat", "values"}


class Diff(tuple):
    """(path, code, spec, where) and the tests of the path that only the code
    (`extra`) or only the definition (`lost`) makes"""
    extra = lost = ()


class Facts(object):
    __slots__ = ("val", "lin", "eqc", "path", "roots")

    def __init__(self):
        self.roots = ()
        self.val = {}
        self.lin = {}     # linear form -> [lo, lo_strict, hi, hi_strict, neq set]
        self.eqc = {}     # value -> constant node
        self.path = ()

    def copy(self):
        f = Facts()
        f.val = dict(self.val)
        f.lin = dict(self.lin)
        f.eqc = dict(self.eqc)
        f.path = self.path
        f.roots = self.roots
        return f


class Compare(object):
    def __init__(self, canon, cap=60000, partial=False, most=16):
        self.cn = canon
        self.most = most
        self.partial = partial    # cases in which the code raises are not compared
        self.cap = cap
        self.n = 0
        self.diffs = []
        self.tested = {}

    # ---------------------------------------------------------------- facts
    def linform(self, p):
        m = self.cn.topoly(p)
        c0 = m.get((), Fraction(0))
        rest = {k: v for k, v in m.items() if k}
        if not rest:
            return None
        lead = self.cn.leadmono(rest)
        k = rest[lead]
        return self.cn.frompoly({q: v / k for q, v in rest.items()}), k, c0

    def bounds(self, facts, q, isint):
        b = facts.lin.get(q)
        if b is None:
            lo = Fraction(0) if self.cn.nonneg(q) else None
            b = (lo, False, None, False, frozenset())
        return b

    def decide(self, atom, facts):
        v = facts.val.get(atom)
        if v is not None:
            return v
        o = atom.op
        if o in ("lt0", "eq0"):
            lf = self.linform(atom.args[0])
            if lf is None:
                return None
            q, k, c0 = lf
            isint = bool(len(atom.args) > 1 and atom.args[1])
            lo, ls, hi, hs, neq = self.bounds(facts, q, isint)
            t = -c0 / k
            if o == "lt0":
                if k > 0:   # q < t ?
                    if hi is not None and (hi < t or (hi == t and hs)):
                        return True
                    if lo is not None and lo >= t:
                        return False
                else:       # q > t ?
                    if lo is not None and (lo > t or (lo == t and ls)):
                        return True
                    if hi is not None and hi <= t:
                        return False
                return None
            if lo is not None and (lo > t or (lo == t and ls)):
                return False
            if hi is not None and (hi < t or (hi == t and hs)):
                return False
            if t in neq:
                return False
            if lo is not None and hi is not None and lo == hi == t:
                return True
            return None
        if o == "isnone":
            x = atom.args[0]
            if x in facts.eqc:
                return facts.eqc[x] is NONE
            if facts.val.get(N("truth", x)) is True:
                return False
            for a, v in facts.val.items():
                if v is True and a.op in ("isinstance",) and a.args[0] is x:
                    return False
            return None
        if o == "eqv":
            x, c = self.splitconst(atom)
            if c is not None:
                if x in facts.eqc:
                    return facts.eqc[x] is c
                if c.op == "const" and facts.val.get(N("isnone", x)) is True:
                    return False
            return None
        if o == "truth":
            x = atom.args[0]
            if facts.val.get(N("isnone", x)) is True:
                return False
            if x in facts.eqc:
                c = facts.eqc[x]
                if c.op == "const":
                    return bool(c.args[0])
            if x.op == "method" and x.args[0] in ("is_file", "is_dir", "exists") and not x.args[2]:
                for k in ("is_file", "is_dir", "exists"):
                    v = facts.val.get(N("truth", N("method", k, x.args[1], (), ())))
                    if v is True and k != "exists" and k != x.args[0]:
                        return x.args[0] == "exists"
                    if v is False and k == "exists" and k != x.args[0]:
                        return False
            return None
        if o == "isinstance":
            x = atom.args[0]
            if facts.val.get(N("isnone", x)) is True:
                return False
            return None
        return None

    def splitconst(self, atom):
        a, b = atom.args[:2]
        ck = ("const", "cls", "glob", "func")
        if a.op in ck and b.op not in ck:
            return b, a
        if b.op in ck and a.op not in ck:
            return a, b
        return None, None

    def learn(self, facts, atom, v):
        f = facts.copy()
        f.val[atom] = v
        f.path = facts.path + ((atom, v),)
        o = atom.op
        if o in ("lt0", "eq0"):
            lf = self.linform(atom.args[0])
            if lf is not None:
                q, k, c0 = lf
                isint = bool(len(atom.args) > 1 and atom.args[1]) and abs(k) == 1
                lo, ls, hi, hs, neq = self.bounds(f, q, isint)
                t = -c0 / k
                if o == "lt0":
                    if (k > 0) == v:
                        # upper bound: q < t (v, k>0) or q <= t (not v, k<0)
                        strict = v
                        if isint and strict and t.denominator == 1:
                            t, strict = t - 1, False
                        if hi is None or t < hi or (t == hi and strict):
                            hi, hs = t, strict
                    else:
                        strict = v
                        if isint and strict and t.denominator == 1:
                            t, strict = t + 1, False
                        if lo is None or t > lo or (t == lo and strict):
                            lo, ls = t, strict
                else:
                    if v:
                        lo, ls, hi, hs = t, False, t, False
                    else:
                        neq = neq | {t}
                        if isint:
                            if lo == t:
                                lo = t + 1
                            if hi == t:
                                hi = t - 1
                f.lin[q] = (lo, ls, hi, hs, neq)
        elif o == "eqv" and v:
            x, c = self.splitconst(atom)
            if c is not None:
                f.eqc[x] = c
        elif o == "isnone" and v:
            f.eqc[atom.args[0]] = NONE
        return f

    def feasible(self, f):
        for q, (lo, ls, hi, hs, neq) in f.lin.items():
            if lo is not None and hi is not None:
                if lo > hi or (lo == hi and (ls or hs)):
                    return False
                if lo == hi and lo in neq:
                    return False
        return True

    # ---------------------------------------------------------------- compare
    def run(self, code, spec, facts=None):
        self.diffs = []
        self.n = 0
        f = facts or Facts()
        f.roots += ((code, spec),)
        self.go(code, spec, f, 0)
        return self.diffs

    def tests(self, n):
        """every test made in a term"""
        r = self.tested.get(n)
        if r is None:
            r = self.tested[n] = frozenset(x.args[0] for x in walk(n) if x.op == "ite")
        return r

    def rejects(self, n, t):
        return any(x.op == "ite" and x.args[0] is t and "raise" in (x.args[1].op, x.args[2].op) for x in walk(n))

    def differ(self, facts, a, b, where):
        d = Diff((facts.path, a, b, where))
        extra, lost = [], []
        for t, _ in facts.path:
            inc = any(t in self.tests(r[0]) for r in facts.roots)
            ins = any(t in self.tests(r[1]) for r in facts.roots)
            if inc and not ins:
                if not (self.partial and any(self.rejects(r[0], t) for r in facts.roots)):
                    extra.append(t)
            if ins and not inc:
                lost.append(t)
        d.extra, d.lost = tuple(extra), tuple(lost)
        self.diffs.append(d)

    def go(self, a, b, facts, depth, where=()):
        """compare; append (path, a, b, where) to diffs"""
        if a is b or b.op == "any":
            return True
        self.n += 1
        if self.n > self.cap:
            raise Blowup("comparison")
        if len(self.diffs) >= self.most:
            return False
        if a.op == "ite" or b.op == "ite":
            tops = [x.args[0] for x in (a, b) if x.op == "ite"]
            t = min(tops, key=digest)
            v = self.decide(t, facts)
            co = lambda n, k: n.args[k] if n.op == "ite" and n.args[0] is t else n
            if v is not None:
                k = 1 if v else 2
                return self.go(co(a, k), co(b, k), facts, depth, where)
            ok = True
            for v in (True, False):
                f = self.learn(facts, t, v)
                if not self.feasible(f):
                    continue
                k = 1 if v else 2
                if not self.go(co(a, k), co(b, k), f, depth, where):
                    ok = False
            return ok
        return self.leaf(a, b, facts, depth, where)

    def eqsubst(self, facts):
        m = {}
        for x, c in facts.eqc.items():
            if x.op not in ("const",):
                m[x] = c
        for q, (lo, ls, hi, hs, neq) in facts.lin.items():
            if lo is not None and lo == hi and not ls and not hs:
                t = const(int(lo)) if lo.denominator == 1 else const(lo)
                if q.op != "poly":
                    m[q] = t
                    continue
                for mono, k in self.cn.topoly(q).items():        # a + rest == t: a is t - rest
                    if len(mono) == 1 and mono[0][1] == 1 and abs(k) == 1:
                        a = mono[0][0]
                        rest = self.cn.sub(q, self.cn.mul(const(int(k)), a))
                        if not contains(rest, lambda y: y is a):
                            m[a] = self.cn.mul(const(int(k)), self.cn.sub(t, rest))
                            break
        return m

    def pieces(self, n, facts):
        """parts of sequences that are, in this case, the sequence itself or an
        element of it"""
        m, cn = {}, self.cn
        for x in walk(n):
            if x.op != "idx":
                continue
            y, k = x.args
            if k.op == "slice" and k.args[0] in (NONE, const(0)) and k.args[2] in (NONE, const(1)) and k.args[1] is not NONE:
                # y[:n] where y has no more than n elements
                if self.holds(cn.lt0(cn.sub(k.args[1], cn.flen(y)), True), False, facts):
                    m[x] = y
            elif y.op == "idx" and y.args[1].op == "slice" and k.op not in ("slice", "list", "const", "mask") and y.args[1].args[2] in (NONE, const(1)):
                lo = y.args[1].args[0]
                if self.holds(cn.lt0(k, True), False, facts):
                    m[x] = cn.fidx(y.args[0], k if lo is NONE else cn.add(lo, k))
        return m

    def numeric(self, n):
        return n.op == "poly" or num(n)

    def same(self, a, b, facts):
        """numbers whose difference the path fixes to zero"""
        lf = self.linform(self.cn.sub(a, b))
        if lf is None:
            return False
        q, k, c0 = lf
        lo, ls, hi, hs, _ = self.bounds(facts, q, False)
        return lo is not None and lo == hi and not ls and not hs and k * lo + c0 == 0

    def outside(self, n, facts):
        """the case in which a loop counts past the end of a sequence it reads"""
        for x in walk(n):
            if x.op not in BINDERS:
                continue
            d = next((y for y in x.args if isinstance(y, Node) and y.op == "dom"), None)
            if d is None or d.args[0] is not const("n"):
                continue
            iv = N("iv", x.args[BINDERS[x.op]])
            for y in walk(x):
                if y.op == "idx" and y.args[1] is iv and y.args[0].op in ("sym", "attr"):
                    t = self.cn.lt0(self.cn.sub(self.cn.flen(y.args[0]), d.args[1]), True)
                    if self.holds(t, True, facts):
                        return True
        return False

    def holds(self, t, v, facts):
        if t in (TRUE, FALSE):
            return (t is TRUE) == v
        if t.op == "ite" and t.args[1:] == (TRUE, FALSE):
            t = t.args[0]
        elif t.op == "ite" and t.args[1:] == (FALSE, TRUE):
            t, v = t.args[0], not v
        return t.op != "ite" and self.decide(t, facts) is v

    def unmade(self, a, b):
        """a model rebuilt from `base` with only unconstrained fields replaced
        agrees with any model it could be, `base` itself included"""
        if b.op == "mk" and a.op != "mk" and b.args[1] is a and all(v.op == "any" for _, v in b.args[2]):
            return True
        return False

    def leaf(self, a, b, facts, depth, where):
        if a.op == "raise" and self.partial:
            return True
        if self.unmade(a, b):
            return True
        # an array whose contents are not specified yet
        if a.op == b.op == "call" and a.args[0] is not b.args[0] and a.args[0].op == b.args[0].op == "glob" and b.args[0].args[0] == "numpy.empty" \
                and a.args[0].args[0] in ("numpy.zeros", "numpy.ones", "numpy.full"):
            a = N("call", b.args[0], a.args[1], tuple((k, v) for k, v in a.args[2] if k != "fill_value"))
            if a is b:
                return True
        if a.op == "raise" and b.op == "raise":
            if b.args[0] in ("Exception", "*") or a.args[0] == b.args[0]:
                return True
            self.differ(facts, a, b, where)
            return False
        nd = len(self.diffs)
        if self.congr(a, b, facts, depth, where):
            return True
        if self.numeric(a) and self.numeric(b) and self.same(a, b, facts):
            del self.diffs[nd:]
            return True
        if self.outside(a, facts) or self.outside(b, facts):
            del self.diffs[nd:]
            return True
        found = self.diffs[nd:]
        # use what the path has established about equal values
        m = self.eqsubst(facts)
        m.update(self.pieces(a, facts))
        m.update(self.pieces(b, facts))
        if m and depth < 40 and not where[-1:] == ("subst",):
            try:
                a2, b2 = self.cn.c(subst(a, m)), self.cn.c(subst(b, m))
            except Blowup:
                a2, b2 = a, b
            if a2 is not a or b2 is not b:
                del self.diffs[nd:]
                f2 = facts.copy()
                f2.roots += ((a2, b2),)
                if self.go(a2, b2, f2, depth + 1, where + ("subst",)):
                    return True
                del self.diffs[nd:]
                self.diffs.extend(found)
        return False

    def congr(self, a, b, facts, depth, where):
        if a.op != b.op:
            x, y = (a, b) if a.op == "mk" else (b, a)
            if x.op == "mk" and x.args[1] is y:      # a model and its copy with some fields set
                ok = True
                for k, v in x.args[2]:
                    w = self.cn.fattr(y, k)
                    ok = self.go(v if x is a else w, w if x is a else v, facts, depth + 1, where + (f"field {k}",)) and ok
                return ok
            self.differ(facts, a, b, where)
            return False
        o = a.op
        if o == "poly":
            return self.poly(a, b, facts, depth, where)
        if o in ("const", "sym", "glob", "func", "vfunc", "cls", "iv", "elem", "cv", "unknown", "raise"):
            self.differ(facts, a, b, where)
            return False
        if o in BINDERS:
            la, lb = a.args[BINDERS[o]], b.args[BINDERS[o]]
            if la != lb:
                nm = "q%d" % depth
                a = self.rename(a, la, nm)
                b = self.rename(b, lb, nm)
                facts = facts.copy()
                facts.roots += ((a, b),)
        if o in BINDERS:
            ka = [y.args[0] for y in a.args if isinstance(y, Node) and y.op == "dom"]
            kb = [y.args[0] for y in b.args if isinstance(y, Node) and y.op == "dom"]
            if ka != kb:
                self.differ(facts, a, b, where + (self.label(a), "another domain"))
                return False
            sa, sb = a.args[-1], b.args[-1]
            if isinstance(sa, tuple) and isinstance(sb, tuple) and sa and sb:
                ia, ib = [x[1] for x in sa if isinstance(x, tuple)], [x[1] for x in sb if isinstance(x, tuple)]
                if any(p is not q and (p in ib or q in ia) for p, q in zip(ia, ib)):
                    self.differ(facts, a, b, where + (self.label(a), "reordered state"))
                    return False
            da = [y for y in a.args if isinstance(y, Node) and y.op == "dom"]
            db = [y for y in b.args if isinstance(y, Node) and y.op == "dom"]
            if da and da == db:
                facts = self.inside(a, da[0], facts)
        if o == "mk" and a.args[0] == b.args[0] and a.args[1] is b.args[1]:
            da, db = dict(a.args[2]), dict(b.args[2])
            ok = True
            for k in sorted(set(da) | set(db)):
                x = da.get(k)
                y = db.get(k)
                if x is None:
                    x = self.cn.fattr(a.args[1], k) if a.args[1] is not NONE else (self.cn.fielddefault(a.args[0], k) or N("unset"))
                if y is None:
                    y = self.cn.fattr(b.args[1], k) if b.args[1] is not NONE else (self.cn.fielddefault(b.args[0], k) or N("unset"))
                ok = self.go(x, y, facts, depth + 1, where + (f"field {k}",)) and ok
            return ok
        if o == "mk" and a.args[0] == b.args[0] and (a.args[1] is NONE) != (b.args[1] is NONE):
            c = self.cn.ix.classes.get(a.args[0])
            nd, ok = len(self.diffs), c is not None and c.is_model()
            for k in sorted(c.all_fields()) if ok else ():
                x, y = (self.value(z, k) for z in (a, b))
                ok = ok and self.go(x, y, facts, depth + 1, where + (f"field {k}",))
            if ok:
                return True
            del self.diffs[nd:]
        if o == "call" and a.args[0] is not b.args[0] or o in ("attr",) and a.args[1] != b.args[1] or o == "method" and a.args[0] != b.args[0]:
            self.differ(facts, a, b, where)
            return False
        if o == "idx" and a.args[0].op == b.args[0].op == "attr" and a.args[0].args[1] != b.args[0].args[1] and {a.args[0].args[1], b.args[0].args[1]} & PICKS:
            self.differ(facts, a, b, where)           # table.loc[..] against table.iloc[..]
            return False
        if o == "strcat" and len(a.args) == len(b.args) and any(x.op != y.op for x, y in zip(a.args, b.args)):
            self.differ(facts, a, b, where)           # the pieces need not correspond
            return False
        return self.args(a, a.args, b.args, b, facts, depth, where + (self.label(a),))

    def value(self, m, k):
        """the field k of a model"""
        for f, v in m.args[2]:
            if f == k:
                return v
        return self.cn.fattr(m.args[1], k) if m.args[1] is not NONE else self.cn.fielddefault(m.args[0], k) or N("unset")

    def inside(self, n, dom, facts):
        """what holds in every round of a loop over dom"""
        nm = n.args[BINDERS[n.op]]
        kind, d = dom.args[0].args[0], dom.args[1]
        f = facts
        if kind == "n":
            f = self.assume(f, self.cn.lt0(self.cn.sub(N("iv", nm), d), True), True)
        for t, v in facts.path:
            if t.op == "exists" and not v and t.args[1] is dom and t.args[2] is FALSE and not t.args[4]:
                old = t.args[0]
                m = {x: N(x.op, nm, *x.args[1:]) for x in walk(t.args[3]) if x.op in ("iv", "elem") and x.args[0] == old}
                f = self.assume(f, subst(t.args[3], m), False)
        if f is not facts:
            f.path = facts.path
        return f

    def assume(self, f, t, v):
        if t in (TRUE, FALSE):
            return f
        if t.op != "ite":
            return self.learn(f, t, v) if self.decide(t, f) is None else f
        a, x, y = t.args
        if x in (TRUE, FALSE) and (x is TRUE) != v:
            return self.assume(self.assume(f, a, False), y, v)
        if y in (TRUE, FALSE) and (y is TRUE) != v:
            return self.assume(self.assume(f, a, True), x, v)
        return f

    def label(self, a):
        if a.op == "call":
            f = a.args[0]
            return str(f.args[0]).split("resistics.")[-1] if f.args and isinstance(f.args[0], str) else "call"
        if a.op == "method":
            return "." + a.args[0]
        if a.op in ("mk", "inst"):
            return a.args[0].split(".")[-1]
        return a.op

    def args(self, a, x, y, b, facts, depth, where):
        if len(x) != len(y):
            self.differ(facts, a, b, where)
            return False
        ok = True
        for p, q in zip(x, y):
            if isinstance(p, Node) and isinstance(q, Node):
                ok = self.go(p, q, facts, depth + 1, where) and ok
            elif isinstance(p, tuple) and isinstance(q, tuple):
                ok = self.args(a, p, q, b, facts, depth, where) and ok
            elif p != q:
                self.differ(facts, a, b, where)
                return False
        return ok

    def rename(self, n, old, new):
        m = {}
        for x in walk(n):
            if x.op in ("iv", "elem", "cv") and x.args[0] == old:
                m[x] = N(x.op, new, *x.args[1:])
        n2 = self.resort(n, m)
        i = BINDERS[n.op]
        return N(n2.op, *(n2.args[:i] + (new,) + n2.args[i + 1:]))

    def resort(self, n, m):
        """replace variables, keeping sums and products in their order"""
        memo = {}

        def rec(x):
            if x in m:
                return m[x]
            r = memo.get(x)
            if r is None:
                na = mapargs(x.args, rec)
                if na == x.args:
                    r = x
                elif x.op == "poly":
                    r = self.cn.frompoly({self.cn._mono_sorted(k): c for k, c in na[0]})
                else:
                    r = N(x.op, *na)
                memo[x] = r
            return r
        return rec(n)

    def poly(self, a, b, facts, depth, where):
        ma, mb = dict(a.args[0]), dict(b.args[0])
        for k in list(ma):
            if k in mb and ma[k] == mb[k]:
                del ma[k], mb[k]
        if len(ma) == len(mb) == 1:
            (ka, ca), = ma.items()
            (kb, cb), = mb.items()
            if ca == cb and len(ka) == len(kb):
                ra = [x for x in ka if x not in kb]
                rb = [x for x in kb if x not in ka]
                if len(ra) == len(rb) == 1 and ra[0][1] == rb[0][1]:
                    return self.go(ra[0][0], rb[0][0], facts, depth + 1, where)
        self.differ(facts, a, b, where)
        return False
