"""Interned terms (the value domain) and linear constraints over them (the numeric domain)."""
from fractions import Fraction
from math import gcd, ceil, floor


class Term:
    __slots__ = ("k", "a", "n", "__weakref__")
    _tab = {}
    _cnt = 0

    def __repr__(self):
        return show(self)


def T(k, *a):
    key = (k,) + a
    t = Term._tab.get(key)
    if t is None:
        t = Term()
        t.k, t.a = k, a
        Term._cnt += 1
        t.n = Term._cnt
        Term._tab[key] = t
    return t


def const(v, ty=None):
    if ty is None:
        ty = {str: "str", bool: "bool", int: "int", float: "float", type(None): "none",
              bytes: "str"}.get(type(v), "obj")
        if isinstance(v, bytes):
            v = v.decode("latin-1")
    # the type is part of the key because True == 1 in Python
    return T("c", ty, v)


NONE, TRUE, FALSE = const(None), const(True), const(False)
ZERO, ONE = const(0), const(1)


def app(op, *a):
    return T("app", op, *a)


def is_const(t):
    return t.k == "c"


def cval(t):
    return t.a[1]


def show(t, d=0):
    if not isinstance(t, Term):
        return repr(t)
    if d > 7:
        return "..."
    if t.k == "c":
        return ("u" if t.a[0] == "unicode" else "") + repr(t.a[1])
    if t.k == "sym":
        return "$%s" % (t.a[1] if len(t.a) > 1 and t.a[1] else t.a[0])
    if t.k == "obj":
        return "<obj%s>" % t.a[0]
    if t.k == "app":
        op, xs = t.a[0], t.a[1:]
        if op == "attr" and len(xs) == 2:
            return "%s.%s" % (show(xs[0], d + 1), xs[1] if isinstance(xs[1], str) else show(xs[1], d + 1))
        if op == "slice":
            return "%s[%s:%s]" % (show(xs[0], d + 1), "" if xs[1] is NONE else show(xs[1], d + 1),
                                  "" if xs[2] is NONE else show(xs[2], d + 1))
        return "%s(%s)" % (op, ", ".join(show(x, d + 1) for x in xs))
    if t.k == "tup":
        return "(%s)" % ", ".join(show(x, d + 1) for x in t.a)
    return "%s:%s" % (t.k, ",".join(show(x, d + 1) if isinstance(x, Term) else str(x) for x in t.a[:2]))


# ---------------------------------------------------------------- linear forms: {atom: coef}, key None = constant
def lconst(c):
    return {None: c} if c else {}


def ladd(x, y, k=1):
    r = dict(x)
    for a, c in y.items():
        v = r.get(a, 0) + k * c
        if v:
            r[a] = v
        else:
            r.pop(a, None)
    return r


def lscale(x, k):
    return {a: c * k for a, c in x.items()} if k else {}


def lkey(x):
    """canonical key of a constraint x >= 0 over the integers"""
    g = 0
    for a, c in x.items():
        if a is not None:
            g = gcd(g, abs(c))
    k = x.get(None, 0)
    if g > 1:
        x = {a: c // g for a, c in x.items() if a is not None}
        k = k // g  # floor: integer tightening
        if k:
            x[None] = k
    return frozenset(x.items())


LIMIT = 400


def infeasible(cons):
    return feasible(cons)[0] is False


def feasible(cons):
    """Gauss + Fourier-Motzkin over a set of constraints (each a dict, meaning >= 0): the emptiness test of the
    polyhedral domain.  (False, None): no integer point for sure.  (True, point): a rational point.
    (None, None): gave up."""
    cur = {}

    def put(dst, key):
        d = dict(key)
        k = d.pop(None, 0)
        if not d:
            return k >= 0
        vs = frozenset(d.items())
        if vs not in dst or dst[vs] > k:
            dst[vs] = k
        return True
    for c in cons:
        if not put(cur, lkey(c)):
            return False, None
    steps = []
    # equalities
    progress = True
    while progress:
        progress = False
        for vs, k in cur.items():
            neg = frozenset([(a, -c) for a, c in vs])
            k2 = cur.get(neg)
            if k2 is None:
                continue
            if k + k2 < 0:
                return False, None
            if k + k2 == 0:
                # vs + k == 0: solve for one variable
                v, cv = min(vs, key=lambda p: (abs(p[1]), p[0].n))
                rest = {a: c for a, c in vs if a is not v}
                if k:
                    rest[None] = k
                steps.append((v, "eq", cv, rest))
                nxt = {}
                m, sg = abs(cv), (1 if cv > 0 else -1)
                for ws, kw in cur.items():
                    if ws is vs or ws is neg:
                        continue
                    d = dict(ws)
                    cw = d.pop(v, None)
                    if cw is None:
                        if ws not in nxt or nxt[ws] > kw:
                            nxt[ws] = kw
                        continue
                    # m * w - (cw * sg) * eq
                    r = {a: c * m for a, c in d.items()}
                    f = cw * sg
                    for a, c in rest.items():
                        if a is not None:
                            x = r.get(a, 0) - f * c
                            if x:
                                r[a] = x
                            else:
                                r.pop(a, None)
                    kk = kw * m - f * rest.get(None, 0)
                    if kk:
                        r[None] = kk
                    if not put(nxt, lkey(r)):
                        return False, None
                cur = nxt
                progress = True
                break
    while cur:
        occ = {}
        for vs in cur:
            for a, c in vs:
                p = occ.get(a)
                if p is None:
                    p = occ[a] = [0, 0]
                p[0 if c > 0 else 1] += 1
        v = min(occ, key=lambda a: (occ[a][0] * occ[a][1] - occ[a][0] - occ[a][1], a.n))
        pos, neg, nxt = [], [], {}
        for vs, k in cur.items():
            c = None
            for a, x in vs:
                if a is v:
                    c = x
                    break
            if c is None:
                nxt[vs] = k
            elif c > 0:
                pos.append((vs, k, c))
            else:
                neg.append((vs, k, -c))
        steps.append((v, "fm", pos, neg))
        for vs1, k1, c1 in pos:
            for vs2, k2, c2 in neg:
                r = {a: c * c2 for a, c in vs1}
                for a, c in vs2:
                    x = r.get(a, 0) + c * c1
                    if x:
                        r[a] = x
                    else:
                        r.pop(a, None)
                k = k1 * c2 + k2 * c1
                if k:
                    r[None] = k
                if not put(nxt, lkey(r)):
                    return False, None
        if len(nxt) > LIMIT:
            return None, None
        if pos and neg:
            # opposite pairs
            for vs, k in nxt.items():
                n = nxt.get(frozenset([(a, -c) for a, c in vs]))
                if n is not None and k + n < 0:
                    return False, None
        cur = nxt
    # a point, by back substitution
    pt = {}
    for v, kind, x, y in reversed(steps):
        if kind == "eq":
            t = -value(y, pt)
            pt[v] = t // x if isinstance(t, int) and t % x == 0 else Fraction(t) / x
            continue
        lo = hi = None
        for vs, k, c in x:
            b = k
            for a, q in vs:
                if a is not v:
                    b += q * pt.get(a, 0)
            b = -b // c if isinstance(b, int) and b % c == 0 else Fraction(-b) / c
            if lo is None or b > lo:
                lo = b
        for vs, k, c in y:
            b = k
            for a, q in vs:
                if a is not v:
                    b += q * pt.get(a, 0)
            b = b // c if isinstance(b, int) and b % c == 0 else Fraction(b) / c
            if hi is None or b < hi:
                hi = b
        if lo is None and hi is None:
            w = 0
        elif lo is None:
            w = floor(hi) if hi < 0 else 0
        elif hi is None:
            w = ceil(lo) if lo > 0 else 0
        elif lo <= 0 <= hi:
            w = 0
        else:
            w = ceil(lo)
            if w > hi:
                w = lo
        pt[v] = w
    return True, pt


def value(l, pt):
    s = 0
    for a, c in l.items():
        s += c if a is None else c * pt.get(a, 0)
    return s
