"""C25: the characters of generated paths and URIs."""
import string
from harness import *
from .request import setup

ASCII = frozenset(map(chr, range(128)))
ALNUM = frozenset(string.ascii_letters + string.digits)
URI = ALNUM | frozenset("-._~:/?#[]@!$&'()*+,;=%")
PATH = URI - frozenset("?#")
ANY = ASCII | {"\x80"}             # \x80 stands for every character that is not ASCII


def alphabet(st, t):
    """the characters a text may hold; None when they are not known"""
    if t.k == "c":
        v = t.a[1]
        return frozenset(c if c < "\x80" else "\x80" for c in str(v)) if isinstance(v, (str, int, float)) else None
    if t.k == "sym":
        if typeof(st, t) in ("int", "bool"):
            return frozenset(string.digits + "-")
        return ASCII if "ascii" in t.a[3] else ANY
    if t.k != "app":
        return ANY if isstr(st, t) else None
    op, a = t.a[0], t.a[1:]
    if op == "quote":
        if len(a) > 2 or a[1].k != "c":
            return None
        return ALNUM | frozenset("_.-%") | frozenset(c if c < "\x80" else "\x80" for c in str(a[1].a[1]))
    if op == "cat":
        r = frozenset()
        for x in a:
            y = alphabet(st, x)
            if y is None:
                return None
            r |= y
        return r
    if op in ("slice", "strip", "lstrip", "rstrip", "char", "splitpart", "basename", "root", "ext", "typed", "striptail", "netloc", "afternet",
              "noparams", "params", "nows"):
        return alphabet(st, a[0])
    if op in ("lower", "upper", "title"):
        x = alphabet(st, a[0])
        return None if x is None else x | {c.lower() for c in x} | {c.upper() for c in x}
    if op == "replace":
        x, y = alphabet(st, a[0]), alphabet(st, a[2])
        if x is None or y is None:
            return None
        return (x - {a[1].a[1]} if a[1].k == "c" and len(str(a[1].a[1])) == 1 and len(a) == 3 else x) | y
    if op == "encode":
        x = alphabet(st, a[0])
        if x is None:
            return None
        return (x & ASCII) | {"?"} if len(a) > 1 and a[1] in (const("ascii"), const("us-ascii")) else x
    if op in ("decode", "str", "unicode", "ascii"):
        return alphabet(st, a[0])
    if op in ("len", "n", "int", "find", "count", "ord", "index"):
        return frozenset(string.digits + "-")
    if op == "unquote":
        return ANY
    return None


def tokens(t):
    """constant characters one by one, and terms"""
    out = []
    if t.k == "app" and t.a[0] == "encode" and t.a[1].k == "app" and t.a[1].a[0] == "cat":
        return [x if isinstance(x, str) and x < "\x80" else app("encode", const(x) if isinstance(x, str) else x, *t.a[2:]) for x in tokens(t.a[1])]
    for x in t.a[1:] if t.k == "app" and t.a[0] == "cat" else [t]:
        if x.k == "c" and isinstance(x.a[1], str):
            out += list(x.a[1])
        else:
            out.append(x)
    return out


def within(ck, st, ts, allowed, con, what):
    for x in ts:
        a = alphabet(st, x) if not isinstance(x, str) else frozenset(x if x < "\x80" else "\x80")
        if a is None:
            ck.incomplete.append("%s: the characters of %s" % (con, show(x)))
            continue
        bad = sorted(a - allowed)
        ck.need("only unreserved, reserved and percent-encoded characters" if allowed is URI else "'?' and '#' are escaped in a path", not bad, con,
                "%s: %s may hold %s" % (what, show(x) if not isinstance(x, str) else repr(x),
                                        ", ".join("a character that is not ASCII" if c == "\x80" else repr(c) for c in bad[:6])), st)


def query_mark(ts):
    """where the query string starts: the first '?' that is not part of anything"""
    for i, x in enumerate(ts):
        if x == "?":
            return i
    return None



def matters(ck, e, st, r):
    """what the paths of a request depend on, with everything known about it"""
    env = {"r": r, "M": T("cls", ck.cls("http.constants.MetaDict"))}
    vs = tuple(v for src in ("r.path", "r.META.get(M.ReqLine.QUERY_STRING)", "r.scheme", "r.host", "M.ReqLine.QUERY_STRING in r.META") for _, v in ck.ev(e, st, src, env))
    syms = {x for v in vs for x in subterms(v) if x.k == "sym"}
    return (vs, frozenset((f, v) for f, v in st.facts.items() if any(x in syms for x in subterms(f))),
            frozenset(l for l in st.lin if any(x in syms for t in linterms(l) for x in subterms(t))))


def linterms(l):
    """the terms of a linear constraint"""
    return [t for t in (l if isinstance(l, dict) else dict(l)) if isinstance(t, Term)]


def full(ck, e, st, r, n):
    env = {"r": r, "M": T("cls", ck.cls("http.constants.MetaDict"))}
    src = "result = (r.get_full_path(), r.get_full_path(True), r.get_uri(), r.get_path(), r.META.get(M.ReqLine.QUERY_STRING, ''), r.scheme, r.host)"
    con = "http.request.HttpRequest.get_full_path"
    for p in ck.script(e, st, src, env):
        if p.kind != "ret":
            continue
        qs = p.v.a[4]
        for has, states in zip((True, False), e.split(p.st, qs)):
            for s in states:
                n[0] += 1
                full_in(ck, e, s, p.v.a, has, con)


def full_in(ck, e, s, v, has, con):
    plain, forced, uri, path, qs, scheme, host = v
    heads = []
    for t in (plain, forced):
        for x in tokens(t):
            if not isinstance(x, str) and alphabet(s, x) is None:
                ck.incomplete.append("%s: the characters of %s" % (con, show(x)))
                return
    for w, t in (("the path", plain), ("the path with a slash asked for", forced)):
        ts = tokens(t)
        k = query_mark(ts)
        head, tail = (ts, []) if k is None else (ts[:k], ts[k + 1:])
        heads.append(mkcat(*[const(x) if isinstance(x, str) else x for x in head]))
        within(ck, s, head, URI, con, w)
        within(ck, s, head, PATH, con, w)
        within(ck, s, tail, URI, con, w + ", its query string")
        if has:
            ck.need("a query string is appended behind one '?'", k is not None and any(not isinstance(x, str) and qs in subterms(x) for x in tail) and tail[0] != "?",
                    con, "%s of a request with a query string is %s" % (w, show(t)), s)
        else:
            ck.need("no '?' without a query string", k is None, con, "%s of a request without a query string is %s" % (w, show(t)), s)
    A, B = heads
    ck.need("no slash is appended unless asked for", tokens(A)[-1:] != ["/"] or ck.holds(e, s, "p.endswith('/')", {"p": path}), con,
            "the path becomes %s although no slash was asked for" % show(A), s)

    def known(want):
        env = {"a": A, "p": path}
        return any(ck.holds(e, s, src if want else "not " + src, env) for src in ("a.endswith('/')", "p.endswith('/')"))
    if e.norm_eq(s, A, B):
        ck.need("a slash is appended when asked for and missing", known(True), con, "%s is left as it is although a slash was asked for" % show(A), s)
    else:
        ck.need("a slash is appended when asked for and missing", e.norm_eq(s, B, mkcat(A, const("/"))) and known(False), con,
                "%s becomes %s when a slash is asked for" % (show(A), show(B)), s)
    front = mkcat(scheme, const("://"), host)
    want = mkcat(front, plain)
    if e.norm_eq(s, uri, want):
        ck.obl["the URI is the scheme, the host and the full path"] += 1
        return
    a, b = tokens(uri), tokens(front)
    within(ck, s, a[len(b):] if a[:len(b)] == b else a, URI, "http.request.HttpRequest.get_uri", "the URI")


@rule("C25", what="The alphabet (set of characters a term may hold) of everything get_full_path(), get_uri(), set_path(), iri_to_uri() and "
                  "escape_uri_path() give, for every path through them after every parsed header; where the slash and the '?' stand is read off "
                  "the concatenation.",
      note="The alphabet of quote(x, safe) is the safe set, letters, digits, '_', '.', '-' and '%'; unquoted output (raw=True) is not covered.",
      assumes=["urllib.quote escapes every character outside its safe set"])
def c25(ck):
    e, st, r, P, c = setup(ck, narrow=False)
    n = [0]
    seen = set()
    for p in ck.script(e, st, "r.parse_request_header()", {"r": r}):
        if p.kind == "ret":
            k = matters(ck, e, p.st, r)
            if k not in seen:
                seen.add(k)
                e.steps = 0
                full(ck, e, p.st, r, n)
    full(ck, e, st.fork(), r, n)
    if not n[0]:
        ck.incomplete.append("no parsed header")
    for ty in ("str", "unicode"):
        e, st, r, P, c = setup(ck)
        x = S("path", ty)
        for src in ("r.set_path(x)\nresult = r.path", "r.set_path(x, True)\nresult = r.get_path()", "r.set_path(x, encode_safely=True)\nresult = r.get_path()"):
            for p in ck.script(e, st.fork(), src, {"r": r, "x": x}):
                if p.kind == "ret":
                    con = "http.request.HttpRequest.set_path"
                    within(ck, p.st, tokens(p.v), URI, con, "the path stored")
                    within(ck, p.st, tokens(p.v), PATH, con, "the path stored")
                    n[0] += 1
        e = ck.engine(keep=True)
        for fn, kw, al in (("iri_to_uri", {}, URI), ("escape_uri_path", {}, PATH), ("escape_uri_path", {"encode_percent": FALSE}, PATH),
                           ("escape_uri_path", {"encode_percent": TRUE}, PATH)):
            for p in ck.paths(e, e.start(), ck.fn("utils.encoding." + fn), [x], kw):
                if p.kind == "ret":
                    within(ck, p.st, tokens(p.v), URI, "utils.encoding." + fn, "the result")
                    if al is PATH:
                        within(ck, p.st, tokens(p.v), PATH, "utils.encoding." + fn, "the result")
    e = ck.engine(keep=True)
    for x in (NONE, S("number", "int")):
        for p in ck.paths(e, e.start(), ck.fn("utils.encoding.iri_to_uri"), [x]):
            if p.kind == "ret" and p.v is not NONE:
                within(ck, p.st, tokens(p.v), URI, "utils.encoding.iri_to_uri", "the result")
    ck.minimum("a slash is appended when asked for and missing", 2)
