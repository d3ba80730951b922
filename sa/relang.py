"""Regular expressions of the source as canonical values: equal languages (with their groups) are equal terms."""
try:
    import re._parser as sp
    import re._constants as sc
except ImportError:
    import sre_parse as sp
    import sre_constants as sc
import re

MAXC = 0x10FFFF
_canon = {}
_reps = {}
_info = {}
FLAGS = {"re.X": re.X, "re.VERBOSE": re.X, "re.I": re.I, "re.IGNORECASE": re.I, "re.M": re.M, "re.MULTILINE": re.M, "re.S": re.S,
         "re.DOTALL": re.S, "re.U": re.U, "re.UNICODE": re.U, "re.L": 0, "re.A": re.A}


class Unsupported(Exception):
    pass


def parse(pat, flags=0):
    if isinstance(pat, bytes):
        pat = pat.decode("latin-1")
    return sp.parse(pat, flags & ~re.U)


def _norm(rs):
    rs = sorted(r for r in rs if r[0] <= r[1])
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return tuple(out)


def _neg(rs):
    out, p = [], 0
    for a, b in _norm(rs):
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAXC:
        out.append((p, MAXC))
    return tuple(out)


CATS = {"DIGIT": ((48, 57),), "SPACE": _norm([(9, 13), (32, 32)]), "WORD": _norm([(48, 57), (65, 90), (95, 95), (97, 122)])}


def _cat(name):
    n = str(name).split("CATEGORY_")[-1]
    if n.startswith("NOT_"):
        return _neg(CATS[n[4:]])
    return CATS[n]


def _fold(rs, icase):
    if not icase:
        return _norm(rs)
    out = list(rs)
    for a, b in rs:
        for lo, hi, d in ((65, 90, 32), (97, 122, -32)):
            x, y = max(a, lo), min(b, hi)
            if x <= y:
                out.append((x + d, y + d))
    return _norm(out)


class NFA:
    def __init__(self):
        self.eps, self.tr, self.mk = [], [], []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        self.mk.append([])
        return len(self.eps) - 1


END = ("end",)


def build(n, seq, s, icase, anchored, top=True):
    """adds the sequence from state s, returns its end state"""
    for op, av in seq:
        o = str(op)
        if o == "LITERAL":
            t = n.new()
            n.tr[s].append((_fold(((av, av),), icase), t))
        elif o == "NOT_LITERAL":
            t = n.new()
            n.tr[s].append((_neg(_fold(((av, av),), icase)), t))
        elif o == "ANY":
            t = n.new()
            n.tr[s].append((_neg(((10, 10),)), t))
        elif o == "IN":
            rs, neg = [], False
            for k, v in av:
                k = str(k)
                if k == "NEGATE":
                    neg = True
                elif k == "LITERAL":
                    rs.append((v, v))
                elif k == "RANGE":
                    rs.append(tuple(v))
                elif k == "CATEGORY":
                    rs.extend(_cat(v))
                else:
                    raise Unsupported(k)
            rs = _fold(rs, icase)
            t = n.new()
            n.tr[s].append((_neg(rs) if neg else rs, t))
        elif o == "SUBPATTERN":
            g, _, _, p = av
            t = s
            if g is not None:
                t = n.new()
                n.mk[s].append((("open", g), t))
            t = build(n, p, t, icase, anchored, False)
            if g is not None:
                u = n.new()
                n.mk[t].append((("close", g), u))
                t = u
        elif o == "BRANCH":
            t = n.new()
            for b in av[1]:
                st = n.new()
                n.eps[s].append(st)
                n.eps[build(n, b, st, icase, anchored, False)].append(t)
        elif o in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            lo, hi, p = av
            if o == "POSSESSIVE_REPEAT" or (hi != sc.MAXREPEAT and hi > 300):
                raise Unsupported(o)
            for _ in range(lo):
                s = build(n, p, s, icase, anchored, False)
            t = n.new()
            if hi == sc.MAXREPEAT:
                b = n.new()
                n.eps[s].append(b)
                e = build(n, p, b, icase, anchored, False)
                n.eps[e].append(b)
                n.eps[b].append(t)
            else:
                n.eps[s].append(t)
                for _ in range(hi - lo):
                    s = build(n, p, s, icase, anchored, False)
                    n.eps[s].append(t)
        elif o == "AT":
            a = str(av)
            t = n.new()
            if a in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                n.mk[s].append((("begin",), t))
            elif a == "AT_END_STRING":
                n.mk[s].append((END, t))
            elif a == "AT_END":
                u = n.new()
                n.tr[s].append((((10, 10),), u))
                n.mk[s].append((END, t))
                n.mk[u].append((END, t))
            else:
                raise Unsupported(a)
        else:
            raise Unsupported(o)
        s = t
    return s


def dfa(tree, icase=False):
    n = NFA()
    s0 = n.new()
    e = build(n, tree, s0, icase, True)
    # a leading "begin" marker is implied by match(); group markers stay letters
    cuts = {0, MAXC + 1}
    marks = set()
    for q in range(len(n.eps)):
        for rs, _ in n.tr[q]:
            for a, b in rs:
                cuts.add(a)
                cuts.add(b + 1)
        for m, _ in n.mk[q]:
            marks.add(m)
    marks.discard(("begin",))
    marks = sorted(marks)
    cs = sorted(cuts)[:-1]

    def close(qs, first):
        st, seen = list(qs), set(qs)
        while st:
            q = st.pop()
            nx = list(n.eps[q]) + [t for m, t in n.mk[q] if m == ("begin",) and first]
            for t in nx:
                if t not in seen:
                    seen.add(t)
                    st.append(t)
        return frozenset(seen)
    init = close([s0], True)
    ids, work, delta, acc = {init: 0}, [init], {}, set()
    first_ok = {init}
    while work:
        Q = work.pop()
        i = ids[Q]
        if e in Q:
            acc.add(i)
        row = []
        for c in cs:
            row.append(close([t for q in Q for rs, t in n.tr[q] if any(a <= c <= b for a, b in rs)], False))
        for m in marks:
            row.append(close([t for q in Q for mm, t in n.mk[q] if mm == m], Q in first_ok and m[0] == "open"))
            if Q in first_ok and m[0] == "open":
                first_ok.add(row[-1])
        for R in row:
            if R not in ids:
                ids[R] = len(ids)
                work.append(R)
                if len(ids) > 6000:
                    raise Unsupported("size")
        delta[i] = [ids[R] for R in row]
    # minimise (Moore), then renumber from the start; merge letters that behave alike
    N = len(ids)
    cls = [1 if q in acc else 0 for q in range(N)]
    while True:
        sig = {}
        new = [sig.setdefault((cls[q],) + tuple(cls[t] for t in delta[q]), len(sig)) for q in range(N)]
        if len(sig) == len(set(cls)):
            break
        cls = new
    order, queue, rep = {}, [0], {}
    for q in range(N):
        rep.setdefault(cls[q], q)
    order[cls[0]] = 0
    out = []
    k = 0
    letters = [("c", c, (cs[i + 1] - 1 if i + 1 < len(cs) else MAXC)) for i, c in enumerate(cs)] + [("m",) + m for m in marks]
    seq = [cls[0]]
    while k < len(seq):
        q = rep[seq[k]]
        k += 1
        rows = {}
        for L, t in zip(letters, delta[q]):
            c = cls[t]
            if c not in order:
                order[c] = len(order)
                seq.append(c)
            rows.setdefault(order[c], []).append(L)
        row = []
        for tgt, ls in sorted(rows.items()):
            row.append((tgt, _norm([(l[1], l[2]) for l in ls if l[0] == "c"]), tuple(l for l in ls if l[0] == "m")))
        out.append((q in acc, tuple(row)))
    return tuple(out)


def anchored_end(tree):
    """does every match end at the end of the string?"""
    items = list(tree)
    if not items:
        return False
    op, av = items[-1]
    o = str(op)
    if o == "AT":
        return str(av) in ("AT_END_STRING", "AT_END")
    if o == "SUBPATTERN":
        return anchored_end(av[3])
    if o == "BRANCH":
        return all(anchored_end(b) for b in av[1])
    return False


_ascii = {}


def ascii_only(pat, flags):
    k = (pat, flags)
    if k not in _ascii:
        _ascii[k] = _ascii_only(pat, flags)
    return _ascii[k]


def _ascii_only(pat, flags):
    """does every string that match() accepts hold ASCII characters only?"""
    try:
        tree = parse(pat, flags)
        if not anchored_end(tree):
            return False
        rows = dfa(tree, bool(flags & re.I))
    except Exception:
        return False
    live = {i for i, (acc, _) in enumerate(rows) if acc}
    while True:
        more = {i for i, (_, row) in enumerate(rows) if any(t in live for t, _, _ in row)} | live
        if more == live:
            break
        live = more
    return not any(t in live and any(b >= 128 for _, b in rs) for i in live for t, rs, _ in rows[i][1])


def canonical(pat, flags, mode):
    """a hashable key: equal keys mean equal behaviour of match() (mode 'match'), else of any method"""
    k = (pat, flags, mode)
    if k in _canon:
        return _canon[k]
    try:
        tree = parse(pat, flags)
    except Exception:
        _canon[k] = None
        return None
    fl = (tree.state.flags if hasattr(tree, "state") else flags) | flags
    key = ("tree", str(dump(tree)), fl & (re.I | re.M | re.S))
    if not fl & (re.M | re.S | re.L):
        single = len(tree) == 1 and str(tree[0][0]) in ("IN", "LITERAL", "NOT_LITERAL")
        branchset = len(tree) == 1 and str(tree[0][0]) == "BRANCH"
        if (mode == "match" and anchored_end(tree)) or single or (branchset and False):
            try:
                key = ("dfa", dfa(tree, bool(fl & re.I)))
            except Unsupported:
                pass
    key += (bool(flags & re.U),)
    _canon[k] = key
    return key


def dump(tree):
    out = []
    for op, av in tree:
        o = str(op)
        if o == "SUBPATTERN":
            out.append((o, av[0], dump(av[3])))
        elif o == "BRANCH":
            out.append((o, tuple(dump(b) for b in av[1])))
        elif o in ("MAX_REPEAT", "MIN_REPEAT"):
            out.append((o, av[0], int(av[1]), dump(av[2])))
        elif o == "IN":
            out.append((o, tuple(sorted(str(x) for x in av))))
        else:
            out.append((o, str(av)))
    return tuple(out)


def representative(pat, flags, mode):
    key = canonical(pat, flags, mode)
    if key is None:
        return pat, flags
    names = dict(parse(pat, flags).state.groupdict)
    rep = _reps.setdefault((key, mode), (pat, flags))
    old = _info.setdefault(rep, {})
    if any(old.get(n, i) != i for n, i in names.items()):
        return pat, flags
    old.update(names)
    return rep


def groupindex(pat, flags, name):
    if (pat, flags) in _info:
        return _info[(pat, flags)].get(name)
    try:
        return parse(pat, flags).state.groupdict.get(name)
    except Exception:
        return None


def _min(items, c):
    """least length of a word of the language (starting with c, when given); None when there is none"""
    best, pre = None, 0
    if c is None:
        n = 0
        for it in items:
            n += _min1(it, None)
        return n
    items = list(items)
    for i, it in enumerate(items):
        m = _min1(it, c)
        if m is not None:
            m += sum(_min1(x, None) for x in items[i + 1:])
            best = m if best is None else min(best, m)
        if _min1(it, None) > 0:
            break
    return best


def _min1(it, c):
    op, av = it
    o = str(op)
    if o == "SUBPATTERN":
        return _min(av[3], c)
    if o == "BRANCH":
        ms = [m for m in (_min(b, c) for b in av[1]) if m is not None]
        return min(ms) if ms else None
    if o in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
        lo, hi, sub = av
        if c is None:
            return int(lo) * _min(sub, None)
        m = _min(sub, c) if int(hi) > 0 else None
        return None if m is None else m + (max(int(lo), 1) - 1) * _min(sub, None)
    if o in ("LITERAL", "NOT_LITERAL", "IN", "ANY", "CATEGORY"):
        if c is None:
            return 1
        return 1 if sc_compile([it]).match(c) else None
    return 0 if c is None else None


def sc_compile(items):
    try:
        import re._compiler as comp
    except ImportError:
        import sre_compile as comp
    return comp.compile(sp.SubPattern(sp.State(), list(items)))


def groupmin(pat, flags, k, first=None):
    """least length of group k of a match (when it starts with `first`); None when the group may be absent or unknown"""
    def find(items):
        for op, av in items:
            o = str(op)
            if o == "SUBPATTERN":
                if av[0] == k:
                    return av[3]
                r = find(av[3])
                if r is not None:
                    return r
        return None
    try:
        tree = parse(pat, flags)
        if flags & re.I:
            return None
        sub = tree if k == 0 else find(tree)
        return None if sub is None else _min(sub, first)
    except Exception:
        return None


def language(pat, flags, whole=False):
    """(start, accepting test, step) of a deterministic automaton of the texts match() accepts, groups left aside; None if not built"""
    try:
        tree = parse(pat, flags)
        fl = (tree.state.flags if hasattr(tree, "state") else flags) | flags
        if fl & (re.M | re.S | re.L):
            return None
        n = NFA()
        s0 = n.new()
        e = build(n, tree, s0, bool(fl & re.I), True)
        end = whole or anchored_end(tree)
        if not end and any(str(op) == "AT" and "END" in str(av) for op, av in walk(tree)):
            return None
        if not end:
            n.tr[e].append((((0, MAXC),), e))
    except Exception:
        return None

    def close(qs, first=False):
        st, seen = list(qs), set(qs)
        while st:
            q = st.pop()
            for t in list(n.eps[q]) + [t for m, t in n.mk[q] if m != ("begin",) or first]:
                if t not in seen:
                    seen.add(t)
                    st.append(t)
        return frozenset(seen)

    def step(Q, c):
        return close([t for q in Q for rs, t in n.tr[q] if any(a <= c <= b for a, b in rs)])
    cuts = {0} | {x for q in range(len(n.eps)) for rs, _ in n.tr[q] for a, b in rs for x in (a, b + 1) if x <= MAXC}
    return close([s0], True), (lambda Q: e in Q), step, cuts


def walk(tree):
    for op, av in tree:
        yield op, av
        o = str(op)
        if o == "SUBPATTERN":
            yield from walk(av[3])
        elif o == "BRANCH":
            for b in av[1]:
                yield from walk(b)
        elif o in ("MAX_REPEAT", "MIN_REPEAT"):
            yield from walk(av[2])


def included(a, b):
    """is the one language part of the other?"""
    if a is None or b is None:
        return False
    cs = sorted(a[3] | b[3])
    seen, work = {(a[0], b[0])}, [(a[0], b[0])]
    while work:
        p, q = work.pop()
        if a[1](p) and not b[1](q):
            return False
        for c in cs:
            r = (a[2](p, c), b[2](q, c))
            if r[0] and r not in seen:
                seen.add(r)
                work.append(r)
                if len(seen) > 20000:
                    return False
    return True


def characters(pat, flags, whole=False):
    """the characters of the texts that match() accepts to their end, those that are not ASCII as \\x80; None if not known"""
    L = language(pat, flags, whole)
    if L is None:
        return None
    cs = sorted(L[3]) + [MAXC + 1]
    reach, work, edges = {L[0]}, [L[0]], []
    while work:
        p = work.pop()
        for i, c in enumerate(cs[:-1]):
            q = L[2](p, c)
            if q:
                edges.append((p, i, q))
                if q not in reach:
                    reach.add(q)
                    work.append(q)
    live = {p for p in reach if L[1](p)}
    while True:
        more = {p for p, _, q in edges if q in live} | live
        if more == live:
            break
        live = more
    out = set()
    for p, i, q in edges:
        if q in live:
            for c in range(cs[i], min(cs[i + 1], 128)):
                out.add(chr(c))
            if cs[i + 1] > 128:
                out.add("\x80")
    return frozenset(out)
