"""C31: which charset a request's text is decoded with."""
from harness import *
from .request import conf, setup, fresh_stream

FORMS = (None, (), ("x",), ("charset",), ("x", "charset"), ("charset", "x"))


def params(ck, e, names, X):
    """parse_header() gives these parameters (None: there is no Content-Type)"""
    def parse_header(eng, st, args, kw, node):
        if names is None:
            return [(st, T("tup", NONE, NONE))]
        ent = {const(n, "unicode"): X if n == "charset" else S("parameter", "str") for n in names}
        return [(st, T("tup", S("content_type", "unicode"), st.new(Obj("dict", ent=ent), ("params", node))))]
    e.contracts[PKG + ".http.multipartparser.parse_header"] = parse_header


def rejected(st, X):
    """the text is known not to name a codec for text"""
    return any(v is True and f.a[0] == "fails" and X in f.a or v is False and f.a[0] == "isinst" and X in subterms(f)
               for f, v in st.facts.items() if f.k == "app")


def value(ck, e, st, src, env):
    n = len(e.exc)
    outs = [v for _, v in ck.ev(e, st, src, env)]
    del e.exc[n:]
    return outs


def dictionary(ck, e, st, q, enc, default, what):
    """a query dictionary built from text was given the charset"""
    o = st.get(q)
    if o is None or o.attrs.get("\x00from") is None:
        return
    x = o.attrs["\x00from"]
    if x is NONE or e.norm_eq(st, x, const("")):
        return
    got = o.attrs["\x00enc"]
    got = default if got is NONE else got
    ck.need("same-charset", e.norm_eq(st, got, enc), what, "is decoded with %s although the request's charset is %s" % (show(got), show(enc)), st)


def same(e, st, v, w):
    """the same text decoded alike"""
    if v.k == w.k == "app" and v.a[0] == w.a[0] and v.a[0] in ("decode", "decode?"):
        return v.a[2:] == w.a[2:] and e.norm_eq(st, v.a[1], w.a[1])
    return e.norm_eq(st, v, w)


def body(ck, e, s, r, enc, default, what):
    n = 0
    for p in ck.script(e, fresh_stream(s.fork()), "r.parse_request_body()\nresult = (r.POST, r.content_type)", {"r": r}):
        if p.kind != "ret":
            continue
        n += 1
        t = p.st
        for v in value(ck, e, t, "r.encoding", {"r": r}):
            ck.need("kept", e.norm_eq(t, v, enc), what, "parsing the body changes the charset to %s" % show(v), t)
        post, ct = p.v.a
        dictionary(ck, e, t, post, enc, default, what + ": the body")
        form = any(ck.holds(e, t, "r.content_type == f", {"r": r, "f": const(f)}) for f in ("multipart/form-data", "application/x-www-form-urlencoded"))
        if form or t.ghost["reads"] is not TRUE or t.ghost["eof"] is not TRUE:
            continue
        raw = t.ghost["G:taken"]
        want = value(ck, e, t, "x.decode(y)", {"x": raw, "y": enc})
        for v in value(ck, e, t, "r.body()", {"r": r}):
            if e.norm_eq(t, raw, const("")):
                continue
            ck.need("text-body", any(same(e, t, v, w) for w in want), what, "the body is given as %s, not as %s" % (
                show(v), ", ".join(show(w) for w in want)), t)
    return n


@rule("C31", what="Every path of parse_request_header() for each kind of Content-Type parameters, then of parse_request_body(): the charset "
                  "reported is the usable one named, else the default; every query dictionary built from text is given that charset and a raw "
                  "text body is decoded with it; the same after assigning another charset. A query dictionary decodes with, and unquotes "
                  "with, the charset it was given, or the default.",
      assumes=["parse_header() gives the parameters of the Content-Type, names in lower case (C36)"])
def c31(ck):
    for names in FORMS:
        what = "no Content-Type" if names is None else "a Content-Type with the parameters %s" % (", ".join(names) or "none")
        X, E = S("charset", "str"), S("given", "str", ("charset",))
        e, st, r, P, c = setup(ck)
        for v in (E, X):
            add_lin(st, ladd(lenof(v), lconst(-1)))
        params(ck, e, names, X)
        e.contracts.pop(PKG + ".http.request.is_text_charset", None)
        default = st.get(c).attrs["DEFAULT_CHARSET"]
        done = n = 0
        states = []
        for p in ck.script(e, fresh_stream(st.fork()), "r.parse_request_header()\nresult = (r.encoding, r.GET)", {"r": r}):
            if p.kind != "ret":
                continue
            done += 1
            enc, get = p.v.a
            if enc is X:
                ck.need("named-charset", names and "charset" in names, what, "the charset is %s" % show(enc), p.st)
            else:
                ck.need("default-charset", e.norm_eq(p.st, enc, default), what, "the charset is %s" % show(enc), p.st)
                ck.need("named-charset", not names or "charset" not in names or rejected(p.st, X), what,
                        "the charset named is not used but %s" % show(enc), p.st)
            dictionary(ck, e, p.st, get, enc, default, what + ": the query string")
            if not any(k == (enc is X, names) for k, _, _ in states):
                states.append(((enc is X, names), p.st, enc))
        for _, s, enc in states:
            n += body(ck, e, s, r, enc, default, what)
            for p in ck.script(e, s, "r.encoding = E\nresult = (r.encoding, r.GET)", {"r": r, "E": E}):
                if p.kind == "ret":
                    ck.need("set-charset", p.v.a[0] is E, what + ", another assigned", "the charset is %s" % show(p.v.a[0]), p.st)
                    dictionary(ck, e, p.st, p.v.a[1], E, default, what + ", another assigned: the query string")
                    n += body(ck, e, p.st, r, E, default, what + ", another assigned")
        ck.need("covered", done and n, what, "is never parsed")
    querydict(ck)
    unquoting(ck)
    ck.minimum("same-charset", 10)
    ck.minimum("text-body", 4)


def querydict(ck):
    f = PKG + ".utils.http.limited_parse_qsl"
    for ty in ("str", "unicode"):
        for given in (True, False):
            what = "QueryDict(%s%s)" % (ty, ", encoding" if given else "")
            e = ck.engine(keep=True)
            st = e.start()
            c = conf(ck, e, st)
            x, y = S("query", ty), S("encoding", "str", ("charset",))
            add_lin(st, ladd(lenof(y), lconst(-1)))
            enc = y if given else st.get(c).attrs["DEFAULT_CHARSET"]
            calls = []

            def parse(eng, s, args, kw, node):
                a = dict(zip(("qs", "keep_blank_values", "encoding", "errors", "fields_limit"), args))
                a.update(kw)
                calls.append(1)
                ck.need("same-charset", eng.norm_eq(s, a.get("encoding", const("utf-8")), enc), what, "its fields are decoded with %s" % show(
                    a.get("encoding", const("utf-8"))), s)
                ok = False
                for k in ((enc, const("iso-8859-1"), const("latin-1")) if ty == "str" else ()):
                    ok = ok or any(eng.norm_eq(s, a["qs"], w) for w in value(ck, eng, s.fork(), "x.decode(y)", {"x": x, "y": k}))
                ck.need("same-charset", ok or eng.norm_eq(s, a["qs"], x) or eng.norm_eq(s, a["qs"], const("")), what, "parses %s" % show(a["qs"]), s)
                return [(s, s.new(Obj("list", seq=()), ("fields", node)))]
            e.contracts[f] = parse
            for p in ck.script(e, st, "q = Q(c, x, encoding=y)\nresult = q.encoding", {"Q": T("cls", ck.cls("http.request.QueryDict")), "c": c, "x": x,
                                                                                  "y": y if given else NONE}):
                if p.kind == "ret":
                    ck.need("same-charset", e.norm_eq(p.st, p.v, enc), what, "reports the encoding %s" % show(p.v), p.st)
            if not calls:
                ck.incomplete.append(what + " does not parse its text with limited_parse_qsl()")


def unquoting(ck):
    """the fields of a query string are unquoted with the charset given"""
    e = ck.engine()
    st = e.start()
    enc = S("encoding", "str", ("charset",))
    calls = []

    def unquote(eng, s, args, kw, node):
        a = dict(zip(("string", "encoding", "errors"), args))
        a.update(kw)
        if e.dry == 0:
            calls.append(1)
            got = a.get("encoding", const("utf-8"))
            ck.need("same-charset", got is enc, "limited_parse_qsl", "a field is unquoted with %s" % show(got), s)
        return [(s, S("unquoted", "unicode"))]
    for n in ("fparse.unquote", "fparse.unquote_plus"):
        e.ext_contracts[n] = unquote
    ck.script(e, st, "f(q, True, encoding=y)", {"f": ck.fn("utils.http.limited_parse_qsl"), "q": S("query", "unicode"), "y": enc})
    if not calls:
        ck.incomplete.append("limited_parse_qsl() does not use unquote()")
