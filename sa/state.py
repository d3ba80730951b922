"""Abstract states: frames, heap, facts (value-numbered, hence immutable), linear constraints, ghosts."""
from terms import (T, Term, app, const, NONE, TRUE, FALSE, ladd, lscale, lconst, lkey, infeasible, feasible, value)

ABSENT = T("absent")
_oids = {}


class Obj:
    """kind: inst | list | dict | set | gen | fn ; `seq` is the content of a sequence as a tuple of
    segments ('one', term) / ('seg', term); `ent`/`base` are the entries of a mapping (base None: nothing
    besides `ent`); `attrs`+`lazy` the attributes of an instance (lazy: unknown ones have initial values)."""
    __slots__ = ("kind", "cls", "attrs", "lazy", "seq", "ent", "base", "x", "birth")

    def __init__(self, kind, cls=None, attrs=None, lazy=False, seq=None, ent=None, base=None, x=None):
        self.kind, self.cls, self.attrs, self.lazy = kind, cls, attrs or {}, lazy
        self.seq, self.ent, self.base, self.x = seq, ent, base, x
        self.birth = 0

    def copy(self):
        o = Obj(self.kind, self.cls, dict(self.attrs), self.lazy, self.seq,
                dict(self.ent) if self.ent is not None else None, self.base, self.x)
        o.birth = self.birth
        return o

    def sig(self):
        return (self.kind, self.cls, frozenset(self.attrs.items()), self.lazy, self.seq,
                frozenset(self.ent.items()) if self.ent is not None else None, self.base, self.x)


class State:
    __slots__ = ("frames", "heap", "facts", "lin", "ghost", "nid", "cnt", "trail", "owned")

    def __init__(self):
        self.frames, self.heap, self.facts, self.lin, self.ghost = {}, {}, {}, frozenset(), {}
        self.nid, self.cnt, self.trail, self.owned = 1, {}, None, set()

    def fork(self):
        s = State()
        s.frames = dict(self.frames)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.lin = self.lin
        s.ghost = dict(self.ghost)
        s.nid, s.trail, s.cnt = self.nid, self.trail, self.cnt
        s.owned = set()
        self.owned = set()  # objects are shared from now on
        return s

    # -- frames
    def var(self, fid, name):
        f = self.frames.get(fid)
        return f.get(name) if f is not None else None

    def setvar(self, fid, name, v):
        f = dict(self.frames.get(fid, {}))
        f[name] = v
        self.frames[fid] = f

    def delvar(self, fid, name):
        f = dict(self.frames.get(fid, {}))
        f.pop(name, None)
        self.frames[fid] = f

    # -- heap
    def new(self, obj, site=None):
        """objects are named by allocation site and count, so that branches allocate independently"""
        k = self.cnt.get(site, 0)
        self.cnt = dict(self.cnt)
        self.cnt[site] = k + 1
        oid = _oids.setdefault((site, k), len(_oids) + 1)
        obj.birth = self.nid
        self.nid += 1
        self.heap[oid] = obj
        self.owned.add(oid)
        return T("obj", oid)

    def get(self, t):
        return self.heap.get(t.a[0]) if t.k == "obj" else None

    def mut(self, t):
        oid = t.a[0]
        if oid not in self.owned:
            self.heap[oid] = self.heap[oid].copy()
            self.owned.add(oid)
        return self.heap[oid]

    def note(self, node, txt):
        self.trail = (getattr(node, "lineno", 0), txt, self.trail)

    def trace(self):
        out, t = [], self.trail
        while t:
            out.append("%s: %s" % (t[0], t[1]))
            t = t[2]
        return out[::-1]


# ------------------------------------------------------------------------------------------- types
STR_OPS = {"slice", "cat", "strip", "lstrip", "rstrip", "lower", "upper", "replace", "join", "fmt", "str", "decode", "encode",
           "ascii", "group", "unquote", "quote", "basename", "join0", "repr", "ext", "root", "char", "ljust", "re.sub", "sub",
           "b64", "striptail", "force", "title", "flat", "splitpart"}
INT_OPS = {"len", "n", "total", "find", "rfind", "count", "mod", "int", "min", "max", "mul", "floordiv", "ord", "index", "abs"}
BOOL_OPS = {"eq", "isnone", "is", "in", "truth", "isinst", "has", "startswith", "endswith", "not", "matches", "le", "lt",
            "all", "any", "forall", "isdigit", "bool", "callable", "subclass", "ge0t"}


def typeof(st, t):
    k = t.k
    if k == "c":
        return t.a[0]
    if k == "sym":
        ty = t.a[2]
        if ty is None and st is not None:
            return st.facts.get(app("typ", t))
        return ty
    if k == "obj":
        o = st.heap.get(t.a[0]) if st else None
        return o.kind if o else None
    if k == "tup":
        return "tuple"
    if k == "app":
        op = t.a[0]
        if op in INT_OPS:
            return "int"
        if op in BOOL_OPS:
            return "bool"
        if op in ("and", "or"):
            return "bool" if all(typeof(st, x) == "bool" for x in t.a[1:] if isinstance(x, Term)) else None
        if op in ("add", "sub_", "neg", "lin"):
            return "int"
        if op in ("decode", "unicode"):
            return "unicode"
        if op in ("encode", "quote", "ascii", "b64", "str"):
            return "str"
        if op in ("slice", "nows", "strip", "lstrip", "rstrip", "lower", "upper", "replace", "cat", "char", "basename", "root", "ext",
                  "splitpart", "netloc", "afternet", "noparams", "params"):
            ts = [typeof(st, x) for x in t.a[1:] if isinstance(x, Term)]
            if op != "cat":
                ts = ts[:1]
            if "unicode" in ts:
                return "unicode"
            if ts and all(x == "str" for x in ts):
                return "str"
            return "text"
        if op in STR_OPS:
            return "text"
        if op == "typed":
            return t.a[2]
        if st is not None:
            return st.facts.get(app("typ", t))
    if k == "ge0":
        return "bool"
    return None


STRISH = ("str", "unicode", "text")


def isstr(st, t):
    return typeof(st, t) in STRISH


def sym_label(t):
    return t.a[1]


_symc = [0]


def fresh(label, ty=None, prov=()):
    _symc[0] += 1
    return T("sym", _symc[0], label, ty, prov)


# -------------------------------------------------------------------------------- linear view of terms
def lin(t):
    """linear form of an int-like term"""
    if t.k == "c":
        v = t.a[1]
        if isinstance(v, bool):
            return lconst(int(v))
        if isinstance(v, int):
            return lconst(v)
        return {t: 1}
    if t.k == "app":
        op = t.a[0]
        if op == "add":
            return ladd(lin(t.a[1]), lin(t.a[2]))
        if op == "sub_":
            return ladd(lin(t.a[1]), lin(t.a[2]), -1)
        if op == "neg":
            return lscale(lin(t.a[1]), -1)
        if op == "mul":
            a, b = lin(t.a[1]), lin(t.a[2])
            if not a or (set(a) == {None}):
                return lscale(b, a.get(None, 0))
            if not b or (set(b) == {None}):
                return lscale(a, b.get(None, 0))
        if op == "lin":
            r = {}
            for a, c in t.a[1]:
                r[a] = c
            return r
        if op == "len":
            return lenof(t.a[1])
    return {t: 1}


def mkint(l):
    """term for a linear form (canonical)"""
    if not l:
        return const(0)
    if set(l) == {None}:
        return const(l[None])
    if len(l) == 1:
        (a, c), = l.items()
        if c == 1:
            return a
    return app("lin", tuple(sorted(l.items(), key=lambda p: (p[0].n if p[0] is not None else 0))))


def lenof(t):
    """linear form of len(string-like term)"""
    if t.k == "c" and isinstance(t.a[1], str):
        return lconst(len(t.a[1]))
    if t.k == "tup":
        return lconst(len(t.a))
    if t.k == "app":
        op = t.a[0]
        if op == "cat":
            r = {}
            for x in t.a[1:]:
                r = ladd(r, lenof(x))
            return r
        if op == "slice":
            x, lo, hi = t.a[1], t.a[2], t.a[3]
            if lo is not NONE and hi is NONE:
                # x[k:] complements x[:k] for every int k
                return ladd(lenof(x), lenof(mkslice(x, NONE, lo)), -1)
        if op in ("lower", "upper"):
            return lenof(t.a[1])
        if op == "char":
            return lconst(1)
        if op == "flat":
            return {app("total", t.a[1]): 1}
        if op == "typed":
            return lenof(t.a[1])
        if op == "category":
            return lconst(2)
        if op == "replace" and len(t.a) == 4:
            x, y = t.a[2], t.a[3]
            if x.k == "c" and y.k == "c" and isinstance(x.a[1], str) and isinstance(y.a[1], str) and x.a[1] \
                    and len(x.a[1]) == len(y.a[1]):
                return lenof(t.a[1])
    return {app("len", t): 1}


def seqlen(seq):
    """(number of elements, total length of the elements) of a segment tuple, as linear forms"""
    n, tot = {}, {}
    for k, x in seq:
        if k == "one":
            n = ladd(n, lconst(1))
            tot = ladd(tot, lenof(x))
        else:
            n = ladd(n, {app("n", x): 1})
            tot = ladd(tot, {app("total", x): 1})
    return n, tot


# ----------------------------------------------------------------------------------- string algebra
def mkslice(x, lo, hi):
    if lo.k == "c" and lo.a[1] == 0:
        lo = NONE
    if lo is NONE and hi is NONE:
        return x
    if x.k == "c" and isinstance(x.a[1], str) and lo.k == "c" and hi.k == "c":
        return const(x.a[1][lo.a[1]:hi.a[1]], x.a[0])
    if hi.k == "c" and hi.a[1] == 0:
        return const("", "str")
    if lo is not NONE and lo is hi:
        return const("", "str")
    if lo is NONE and hi.k == "app" and hi.a[0] == "len" and _prefix(hi.a[1], x):
        return hi.a[1]
    if x.k == "app" and x.a[0] == "cat" and x.a[1].k == "c" and isinstance(x.a[1].a[1], str):
        h = x.a[1].a[1]
        n = len(h)
        if all(b is NONE or b.k == "c" and isinstance(b.a[1], int) and b.a[1] >= 0 for b in (lo, hi)):
            l = 0 if lo is NONE else lo.a[1]
            if hi is not NONE and hi.a[1] <= n:
                return const(h[l:hi.a[1]], x.a[1].a[0])
            if hi is NONE and 0 < l <= n:
                return mkcat(const(h[l:], x.a[1].a[0]), *x.a[2:])
    if x.k == "app" and x.a[0] == "slice" and hi is NONE and x.a[3] is NONE and _nonneg(x.a[2]) and _nonneg(lo):
        return mkslice(x.a[1], mkint(ladd(lin(x.a[2]), lin(lo))), NONE)
    return app("slice", x, lo, hi)


def _nonneg(t):
    l = lin(t)
    return all(c >= 0 and (a is None or (a.k == "app" and a.a[0] in ("len", "n", "total", "count", "nn"))) for a, c in l.items())


class Budget(Exception):
    pass


def mkcat(*xs):
    out = []
    for x in xs:
        parts = x.a[1:] if (x.k == "app" and x.a[0] == "cat") else (x,)
        for p in parts:
            if p.k == "c" and p.a[1] == "":
                continue
            if out:
                q = out[-1]
                if p.k == "c" and q.k == "c" and isinstance(p.a[1], str) and isinstance(q.a[1], str):
                    ty = "unicode" if "unicode" in (p.a[0], q.a[0]) else "str"
                    if len(q.a[1]) > 1 << 20:
                        raise Budget("a constant grows without end")
                    out[-1] = const(q.a[1] + p.a[1], ty)
                    continue
                if (p.k == "app" and q.k == "app" and p.a[0] == q.a[0] == "slice" and p.a[1] is q.a[1]
                        and q.a[3] is p.a[2] and q.a[3] is not NONE):
                    m = mkslice(p.a[1], q.a[2], p.a[3])
                    out.pop()
                    if m.k == "app" and m.a[0] == "cat":
                        out.extend(m.a[1:])
                    else:
                        out.append(m)
                    continue
                if (p.k == "app" and p.a[0] == "slice" and p.a[3] is NONE and q.k == "app" and q.a[0] == "slice" and _prefix(q, p.a[1])
                        and lin(p.a[2]) == lenof(q)):
                    # u + x[len(u):] where u is a prefix of x
                    out.pop()
                    m = p.a[1]
                    out.extend(m.a[1:] if m.k == "app" and m.a[0] == "cat" else [m])
                    continue
            out.append(p)
    if not out:
        return const("", "str")
    if len(out) == 1:
        return out[0]
    return app("cat", *out)


def _prefix(q, x):
    while q is not x:
        if not (q.k == "app" and q.a[0] == "slice" and q.a[2] is NONE):
            return False
        q = q.a[1]
    return True


def flat(seq):
    """the concatenation of all elements of a sequence"""
    return mkcat(*[x if k == "one" else app("flat", x) for k, x in seq])


def subst(t, m, memo=None):
    """replace sub-terms (and renormalise)"""
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return tuple(subst(x, m, memo) for x in t)
        return t
    if t in m:
        return m[t]
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t.k == "app":
        if t.a[0] == "lin":
            acc = {}
            for a, c in t.a[1]:
                acc = ladd(acc, lconst(c) if a is None else lscale(lin(subst(a, m, memo)), c))
            r = mkint(acc)
        else:
            xs = [subst(x, m, memo) for x in t.a[1:]]
            if all(x is y for x, y in zip(xs, t.a[1:])):
                r = t
            elif t.a[0] == "cat":
                r = mkcat(*xs)
            elif t.a[0] == "slice":
                r = mkslice(*xs)
            elif t.a[0] == "len":
                r = mkint(lenof(xs[0]))
            elif t.a[0] in ("add", "sub_", "neg", "mul"):
                r = mkint(lin(app(t.a[0], *xs)))
            else:
                r = app(t.a[0], *xs)
    elif t.k in ("tup", "ge0", "bound", "clo"):
        if t.k == "ge0":
            r = t
        else:
            r = T(t.k, *[subst(x, m, memo) for x in t.a])
    else:
        r = t
    memo[t] = r
    return r


def lsubst(l, m):
    r = {}
    for a, c in l.items():
        if a is None:
            r = ladd(r, lconst(c))
        else:
            s = subst(a, m)
            r = ladd(r, lscale(lin(s), c))
    return r


def subterms(t, acc=None):
    if acc is None:
        acc = set()
    if isinstance(t, tuple):
        for x in t:
            subterms(x, acc)
        return acc
    if not isinstance(t, Term) or t in acc:
        return acc
    acc.add(t)
    if t.k in ("app", "tup", "bound", "clo", "exc"):
        for x in t.a:
            if isinstance(x, (Term, tuple)):
                subterms(x, acc)
    return acc


# ------------------------------------------------------------------------------------- entailment
_cache = {}


def _axioms(atoms, cons, splits, present=frozenset()):
    """axioms for the atoms mentioned; may add to `splits` lists of alternative constraint lists"""
    done = set()
    todo = list(atoms)
    seen = len(splits)
    while todo:
        a = todo.pop()
        if a is None or a in done:
            continue
        done.add(a)
        new = []
        if a.k == "app":
            op = a.a[0]
            if op in ("len", "n", "total", "count", "nn", "abs"):
                cons.append({a: 1})
            if op in ("n", "total") and ({app("n", a.a[1]): 1} if op == "total" else {app("total", a.a[1]): 1}).keys() <= present:
                # nothing has no length
                t, n = app("total", a.a[1]), app("n", a.a[1])
                alt = [[{n: -1}, {t: -1}], [{n: 1, None: -1}]]
                if alt not in splits:
                    splits.append(alt)
            if op == "len":
                x = a.a[1]
                if x.k == "app":
                    xo = x.a[0]
                    if xo == "slice":
                        L = {a: 1}
                        y, lo, hi = x.a[1], x.a[2], x.a[3]
                        N = lenof(y)
                        if lo is NONE:
                            h = lin(hi)
                            # min(h, N) for h >= 0, max(0, N + h) otherwise
                            new += [ladd(N, L, -1)]
                            splits.append([[h, ladd(N, h, -1), ladd(h, L, -1), ladd(L, h, -1)],
                                           [h, ladd(ladd(h, N, -1), lconst(-1)), ladd(N, L, -1), ladd(L, N, -1)],
                                           [ladd(lscale(h, -1), lconst(-1)), ladd(N, h), ladd(ladd(N, h), L, -1), ladd(L, ladd(N, h), -1)],
                                           [ladd(lscale(h, -1), lconst(-1)), ladd(lscale(ladd(N, h), -1), lconst(-1)), lscale(L, -1)]])
                        else:
                            l, h = lin(lo), lin(hi)
                            new += [ladd(N, L, -1)]
                            # 0 <= lo <= hi <= N : L = hi - lo ; otherwise only 0 <= L <= N (and <= hi - lo if lo, hi >= 0)
                            d = ladd(h, l, -1)
                            splits.append([[l, d, ladd(N, h, -1), ladd(d, L, -1), ladd(L, d, -1)],
                                           [l, d, ladd(ladd(h, N, -1), lconst(-1)), ladd(d, L, -1)],
                                           [l, h, ladd(lscale(d, -1), lconst(-1)), lscale(L, -1)],
                                           [ladd(lscale(l, -1), lconst(-1))],
                                           [ladd(lscale(h, -1), lconst(-1))]])
                    elif xo in ("strip", "lstrip", "rstrip"):
                        new += [ladd(lenof(x.a[1]), {a: 1}, -1)]
                    elif xo == "basename":
                        new += [ladd(lenof(x.a[1]), {a: 1}, -1)]
                    elif xo in ("root", "ext"):
                        b = "ext" if xo == "root" else "root"
                        o = app("len", app(b, x.a[1]))
                        s = ladd({a: 1}, {o: 1})
                        new += [ladd(lenof(x.a[1]), s, -1), ladd(s, lenof(x.a[1]), -1)]
            if op in ("find", "rfind"):
                N = lenof(a.a[1])
                M = lenof(a.a[2])
                new += [{a: 1, None: 1}]
                # either -1 or 0 <= f <= N - M
                if len(a.a) == 3:
                    splits.append([[{a: -1, None: -1}, {a: 1, None: 1}],
                                   [{a: 1}, ladd(ladd(N, M, -1), {a: 1}, -1)]])
                    # the first and the last occurrence
                    f, r = (a, Term._tab.get(("app", "rfind", a.a[1], a.a[2]))) if op == "find" else (app("find", a.a[1], a.a[2]), a)
                    if r is not None:
                        new.append({r: 1, f: -1})
                        splits.append([[{r: -1, None: -1}, {r: 1, None: 1}, {f: -1, None: -1}, {f: 1, None: 1}], [{f: 1}, {r: 1, f: -1}]])
                else:
                    st_ = lin(a.a[3])
                    splits.append([[{a: -1, None: -1}, {a: 1, None: 1}],
                                   [{a: 1}, ladd(ladd(N, M, -1), {a: 1}, -1), ladd({a: 1}, st_, -1)]])
            if op == "mod":
                m = lin(a.a[2])
                if set(m) <= {None} and m.get(None, 0) > 0:
                    new += [{a: 1}, {a: -1, None: m[None] - 1}]
            if op == "min":
                for x in a.a[1:]:
                    new.append(ladd(lin(x), {a: 1}, -1))
                splits.append([[ladd({a: 1}, lin(x), -1)] for x in a.a[1:]])
            if op == "max":
                for x in a.a[1:]:
                    new.append(ladd({a: 1}, lin(x), -1))
                splits.append([[ladd(lin(x), {a: 1}, -1)] for x in a.a[1:]])
        for c in new:
            cons.append(c)
            todo.extend(x for x in c if x is not None)
        while seen < len(splits):
            for alt in splits[seen]:
                for c in alt:
                    todo.extend(x for x in c if x is not None and x not in done)
            seen += 1
    return done


def _search(cons, splits, budget=None):
    """no integer point?  Case splits are made only where the point found violates all alternatives."""
    if budget is None:
        budget = [60]
    budget[0] -= 1
    ok, pt = feasible(cons)
    if ok is False:
        return True
    if not splits or budget[0] <= 0:
        return False
    if pt is not None:
        for i, alt in enumerate(splits):
            if not any(all(value(c, pt) >= 0 for c in a) for a in alt):
                rest = splits[:i] + splits[i + 1:]
                return all(_search(cons + a, rest, budget) for a in alt)
        return False
    return all(_search(cons + a, splits[1:], budget) for a in splits[0])


def contradictory(st, extra):
    """True when st.lin + extra (list of linear forms >= 0) has no integer solution"""
    key = (st.lin, tuple(lkey(e) for e in extra))
    r = _cache.get(key)
    if r is not None:
        return r
    base = [dict(c) for c in st.lin]
    here = {a for b in base for a in b} | {a for e in extra for a in e}
    want = set()
    for e in extra:
        want |= {a for a in e if a is not None}
    if not extra:
        for b in base:
            want |= {a for a in b if a is not None}
    cons = list(extra)
    splits = []
    seen_ax = set()
    chosen = set()
    # cone of influence
    changed = True
    while changed:
        changed = False
        newat = want - seen_ax
        if newat:
            c0 = []
            d = _axioms(newat, c0, splits, here)
            seen_ax |= d
            for c in c0:
                cons.append(c)
                for a in c:
                    if a is not None and a not in want:
                        want.add(a)
                        changed = True
        for i, b in enumerate(base):
            if i in chosen:
                continue
            if any(a in want for a in b if a is not None) or set(b) <= {None}:
                chosen.add(i)
                cons.append(b)
                for a in b:
                    if a is not None and a not in want:
                        want.add(a)
                changed = True
    k2 = frozenset(lkey(c) for c in cons)
    r = _cache.get(k2)
    if r is None:
        r = _search(cons, splits[:12])
        _cache[k2] = r
    if len(_cache) > 400000:
        _cache.clear()
    _cache[key] = r
    return r


def entails(st, l):
    """does st prove  l >= 0 ?"""
    if set(l) <= {None}:
        return l.get(None, 0) >= 0
    if lkey(l) in st.lin:
        return True
    neg = ladd(lscale(l, -1), lconst(-1))
    return contradictory(st, [neg])


def entails_eq(st, a, b):
    d = ladd(a, b, -1)
    return entails(st, d) and entails(st, lscale(d, -1))


def add_lin(st, l):
    """add l >= 0; False when that is contradictory"""
    if set(l) <= {None}:
        return l.get(None, 0) >= 0
    k = lkey(l)
    if k in st.lin:
        return True
    if contradictory(st, [dict(k)]):
        return False
    st.lin = st.lin | {k}
    return True
