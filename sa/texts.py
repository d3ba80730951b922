"""Structured texts: strings made of known constants and unknown pieces, each piece with sub-strings it cannot contain and a
least length.  Searching, cutting and splitting such a text is exact where the structure decides it, and left open otherwise."""
from terms import const, app, ladd, lconst
from state import fresh, mkcat, lin, lenof, mkint, entails

WS = " \t\n\r\x0b\x0c"


def piece(label, no=(), least=0, ty="str"):
    return fresh(label, ty, ("text", frozenset(no), least))


def ispiece(t):
    return t.k == "sym" and len(t.a) > 3 and bool(t.a[3]) and t.a[3][0] == "text"


def structured(t):
    """does the string hold a piece?"""
    if ispiece(t):
        return True
    if t.k == "app":
        if t.a[0] == "cat":
            return any(structured(x) for x in t.a[1:])
        if t.a[0] in ("lower", "upper", "strip", "lstrip", "rstrip"):
            return structured(t.a[1])
    return False


def parts(t):
    if t.k == "app" and t.a[0] == "cat":
        return list(t.a[1:])
    return [] if t.k == "c" and t.a[1] == "" else [t]


def info(t):
    """(sub-strings it cannot contain, least length)"""
    if ispiece(t):
        return t.a[3][1], t.a[3][2]
    if t.k == "app":
        op = t.a[0]
        if op in ("lower", "upper"):
            no, least = info(t.a[1])
            return frozenset(n for n in no if n.lower() == n.upper()), least
        if op in ("strip", "lstrip", "rstrip", "slice"):
            if t.a[1].k == "app" and t.a[1].a[0] == "cat":
                return frozenset(), 0
            return info(t.a[1])[0], 0
    return frozenset(), 0


def isconst(t):
    return t.k == "c" and isinstance(t.a[1], str)


def may_hold(no, s):
    return not any(n in s for n in no)


def _can(ps, i, rest, inf):
    """may `rest` be matched from the start of part i on?"""
    if rest == "":
        return True
    if i == len(ps):
        return False
    c = ps[i]
    if c is not None and isinstance(c, str):
        if c.startswith(rest):
            return True
        return rest.startswith(c) and _can(ps, i + 1, rest[len(c):], inf)
    no, least = inf[i]
    if may_hold(no, rest):
        return True
    for k in range(least, len(rest)):
        if may_hold(no, rest[:k]) and _can(ps, i + 1, rest[k:], inf):
            return True
    return False


def _find(ps, inf, s, skip=0):
    """index (part, offset) of the first occurrence at or behind offset `skip`, 'none', or None when undecided"""
    for i, c in enumerate(ps):
        if isinstance(c, str):
            for off in range(len(c)):
                if i == 0 and off < skip:
                    continue
                seg = c[off:]
                if seg.startswith(s):
                    return i, off
                if s.startswith(seg) and _can(ps, i + 1, s[len(seg):], inf):
                    return None
        else:
            no, least = inf[i]
            if may_hold(no, s):
                return None
            for k in range(1, len(s)):
                if may_hold(no, s[:k]) and _can(ps, i + 1, s[k:], inf):
                    return None
    return "none"


def _flat(ts):
    return [t.a[1] if isconst(t) else None for t in ts]


def offset(ts, i, off):
    l = lconst(off)
    for t in ts[:i]:
        l = ladd(l, lenof(t))
    return l


def find(st, x, s, start=None):
    """position (a linear form) of the first occurrence of the constant s, 'none', None when undecided, or ('if', p) when it
    is p if that is not before the start"""
    if s == "":
        return None
    ts = parts(x)
    inf = [info(t) for t in ts]
    if start is None:
        r = _find(_flat(ts), inf, s)
        return r if r is None or r == "none" else offset(ts, *r)
    l = lin(start)
    if set(l) <= {None} and l.get(None, 0) < 0:
        return None
    c = cut(st, ts, l)
    if c is not None:
        r = _find(_flat(c[1]), [info(t) for t in c[1]], s)
        return r if r is None or r == "none" else ladd(l, offset(c[1], *r))
    if not nonneg(st, l):
        return None
    base = {}
    while True:
        r = _find(_flat(ts), inf, s)
        if r is None or r == "none":
            return r
        here = offset(ts, *r)
        p = ladd(base, here)
        low = r[1] + sum(len(t.a[1]) if isconst(t) else info(t)[1] for t in ts[:r[0]])
        if set(l) <= {None} and not base and low >= l.get(None, 0) or entails(st, ladd(p, l, -1)):
            return p
        if not entails(st, ladd(ladd(l, p, -1), lconst(-1))):
            return "if", p
        # before the start: look further
        step = ladd(here, lconst(1))
        c = cut(st, ts, step)
        if c is None:
            return None
        ts, base = c[1], ladd(base, step)
        inf = [info(t) for t in ts]


def rfind(st, x, s):
    if s == "":
        return None
    ts = parts(x)[::-1]
    r = _find([c[::-1] if c is not None else None for c in _flat(ts)],
              [(frozenset(n[::-1] for n in info(t)[0]), info(t)[1]) for t in ts], s[::-1])
    if r is None or r == "none":
        return r
    return ladd(ladd(lenof(x), offset(ts, *r), -1), lconst(-len(s)))


def cut(st, ts, pos):
    """(parts before, parts behind) the position"""
    p = {}
    for i, t in enumerate(ts):
        d = ladd(pos, p, -1)
        if set(d) <= {None}:
            k = d.get(None, 0)
            if k == 0:
                return ts[:i], ts[i:]
            if k < 0:
                return None
            if isconst(t) and k < len(t.a[1]):
                return ts[:i] + [const(t.a[1][:k], t.a[0])], [const(t.a[1][k:], t.a[0])] + ts[i + 1:]
        p = ladd(p, lenof(t))
    d = ladd(pos, p, -1)
    if set(d) <= {None} and d.get(None, 0) >= 0:
        return ts, []
    return None


def position(x, k):
    """linear form of a slice bound of x"""
    l = lin(k)
    if set(l) <= {None} and l.get(None, 0) < 0:
        return ladd(lenof(x), l)
    return l


def slice_(st, x, lo, hi):
    """x[lo:hi], or None when undecided"""
    from terms import NONE
    ts = parts(x)
    left = []
    if hi is not NONE:
        h = position(x, hi)
        if not nonneg(st, h):
            return None
        c = cut(st, ts, h)
        if c is None:
            return None
        ts = c[0]
    if lo is not NONE:
        h = position(x, lo)
        if not nonneg(st, h):
            return None
        c = cut(st, ts, h)
        if c is None:
            k = behind(ts, h)
            if k is not None:
                return app("slice", ts[-1], const(k), NONE)
            # behind the end already cut off
            if entails(st, ladd(h, lenof(mkcat(*ts)), -1)):
                return const("")
            return None
        ts = c[1]
    return mkcat(*ts)


def behind(ts, pos):
    """k when the position is k bytes into the last part, a piece"""
    if not ts or not ispiece(ts[-1]):
        return None
    for t in ts[:-1]:
        pos = ladd(pos, lenof(t), -1)
    return pos.get(None, 0) if set(pos) <= {None} and pos.get(None, 0) > 0 else None


def nonneg(st, l):
    return l.get(None, 0) >= 0 and all(c >= 0 for c in l.values()) or entails(st, l)


def split(st, x, s, most=None, right=False):
    """list of the fields, or None"""
    out = []
    cur = x
    while most is None or len(out) < most:
        p = rfind(st, cur, s) if right else find(st, cur, s)
        if p is None:
            return None
        if p == "none":
            break
        a, b = cut(st, parts(cur), p)
        e = cut(st, b, lconst(len(s)))
        if e is None:
            return None
        b = e[1]
        if right:
            out.append(mkcat(*b))
            cur = mkcat(*a)
        else:
            out.append(mkcat(*a))
            cur = mkcat(*b)
        if len(out) > 60:
            return None
    out.append(cur)
    return out[::-1] if right else out


def count(st, x, s):
    f = split(st, x, s)
    return None if f is None else len(f) - 1


def strip(x, side, chars=None):
    """the text without surrounding characters; what a piece hides stays written as an application"""
    ch = WS if chars is None else chars
    ts = parts(x)
    lopen = ropen = False
    if side in ("strip", "lstrip"):
        while ts and isconst(ts[0]):
            s = ts[0].a[1].lstrip(ch)
            ts = ([const(s, ts[0].a[0])] if s else []) + ts[1:]
            if s:
                break
        lopen = bool(ts) and not isconst(ts[0])
    if side in ("strip", "rstrip"):
        while ts and isconst(ts[-1]):
            s = ts[-1].a[1].rstrip(ch)
            ts = ts[:-1] + ([const(s, ts[-1].a[0])] if s else [])
            if s:
                break
        ropen = bool(ts) and not isconst(ts[-1])
    core = mkcat(*ts)
    if not lopen and not ropen:
        return core
    extra = () if chars is None else (const(chars),)
    # strips inside a strip of at least the same characters
    while core.k == "app" and core.a[0] in ("strip", "lstrip", "rstrip") and len(core.a) <= 3:
        inner = WS if len(core.a) == 2 else core.a[2].a[1] if isconst(core.a[2]) else None
        if inner is None or not set(inner) <= set(ch):
            break
        if core.a[0] == side or side == "strip":
            core = core.a[1]
        elif set(inner) == set(ch) and core.a[0] in ("lstrip", "rstrip"):
            core, side = core.a[1], "strip"
        else:
            break
    return app(side, core, *extra)


def lower(x, op):
    out = []
    for t in parts(x):
        if isconst(t):
            out.append(const(getattr(t.a[1], op)(), t.a[0]))
        elif t.k == "app" and t.a[0] in ("lower", "upper"):
            out.append(app(op, t.a[1]))
        else:
            out.append(app(op, t))
    return mkcat(*out)


def starts(st, x, s):
    """True / False / None"""
    ts = parts(x)
    acc = ""
    for t in ts:
        if not isconst(t):
            break
        acc += t.a[1]
    if len(acc) >= len(s) or acc == s:
        return acc.startswith(s)
    if not _can(_flat(ts), 0, s, [info(t) for t in ts]):
        return False
    return None


def ends(st, x, s):
    ts = parts(x)[::-1]
    acc = ""
    for t in ts:
        if not isconst(t):
            break
        acc = t.a[1] + acc
    if len(acc) >= len(s):
        return acc.endswith(s)
    if not _can([c[::-1] if c is not None else None for c in _flat(ts)], 0, s[::-1],
                [(frozenset(n[::-1] for n in info(t)[0]), info(t)[1]) for t in ts]):
        return False
    return None


def resolved(t):
    """made of constants, pieces and plain operations on them only: its value is what it says"""
    if t.k == "c" or ispiece(t):
        return True
    if t.k == "app":
        if t.a[0] == "cat":
            return all(resolved(x) for x in t.a[1:])
        if t.a[0] in ("lower", "upper", "strip", "lstrip", "rstrip", "slice"):
            return all(resolved(x) for x in t.a[1:])
    return False
