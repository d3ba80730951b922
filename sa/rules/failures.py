"""C08, C09: the exceptions parsing fails with."""
from harness import *
from .request import REQ, conf, stream_contract, fresh_stream, request, handlers_contract, multipart_contract, generic
from .streams import source, error_of

HP = "http.request."
ANY = "anything else"


def named(prog, q):
    """the documented name of an exception class"""
    return excname(q).split(".")[-1]


def outcomes(ck, src, env, con=None, unroll=1, keep=False, args=()):
    """(exceptions, paths) of a script over arbitrary texts"""
    e = ck.engine(keep=keep)
    e.unroll = unroll
    e.cap = 4000
    st = e.start()
    if con:
        con(e, st)
    ps = ck.script(e, st, src, env(e, st))
    ex = {}
    for p in ps:
        if p.kind == "exc":
            ex.setdefault(p.exc, p)
    return ex, ps


def usable(eng, st, enc):
    """the text is known to name a codec"""
    if enc is NONE or enc.k == "c" or eng.textcodec(st, enc):
        return True
    return all(st.facts.get(app("fails", x, "codec", enc)) is False for x in ("LookupError", "TypeError"))


def pieces(ck):
    """the exceptions each helper that takes a header apart can end with, from its own code, over any text"""
    x = S("text", "str")
    found = {}
    for n in ("parse_request_headers", "parse_request_line", "split_domain_port"):
        if ck.prog.funcs.get(PKG + "." + HP + n) is None:
            continue
        f = ck.fn(HP + n)
        found[n], ps = outcomes(ck, "f(x)", lambda e, st: {"f": f, "x": x})
        ck.need("examined", ps, HP + n, "has no path")
        if n == "parse_request_line":
            ds = [p.st.get(p.v) for p in ps if p.kind == "ret"]
            if any(d is None or d.ent is None or d.base is not None for d in ds):
                del found[n]
                continue
            found["keys"] = [k for k in ds[0].ent if all(d.ent.get(k, ABSENT) is not ABSENT for d in ds)] if ds else []
    if ck.prog.funcs.get(PKG + ".http.multipartparser.parse_header") is not None:
        f = ck.fn("http.multipartparser.parse_header")
        found["parse_header"], ps = outcomes(ck, "f(x)", lambda e, st: {"f": f, "x": x})
        ck.need("examined", ps, "http.multipartparser.parse_header", "has no path")
    q = T("cls", ck.cls(HP + "QueryDict"))
    for n, enc in (("known", S("encoding", "str", ("charset",))), ("default", NONE), ("unknown", S("encoding", "str"))):
        for y in (x, NONE):
            found["QueryDict", n, y is NONE], ps = outcomes(ck, "Q(c, x, encoding=y)", lambda e, st: {"Q": q, "c": conf(ck, e, st), "x": y, "y": enc})
        ck.need("examined", ps, HP + "QueryDict", "has no path")
    return found


def contracts(ck, e, found):
    """the helpers, by what was found out about them"""
    con = e.contracts
    hp = PKG + "." + HP

    def end(eng, st, exs, node):
        for q in exs:
            s = st.fork()
            s.ghost["from"] = const(node.lineno if node is not None and hasattr(node, "lineno") else 0)
            eng.throwx(s, q, node)

    def text(st, v):
        return v is not None and typeof(st, v) == "str"

    def headers(eng, st, args, kw, node):
        if len(args) != 1 or kw or not text(st, args[0]):
            return None
        end(eng, st, found["parse_request_headers"], node)
        d = eng.lazy_inst(st, ck.cls("utils.datastructures.MultiValueDict"), ("headers", node), base=S("headers", None, ("filled",)))
        st.mut(d).x = "lists"
        return [(st, T("tup", S("request line", "str"), d))]

    def line(eng, st, args, kw, node):
        if len(args) != 1 or kw or not text(st, args[0]):
            return None
        end(eng, st, found["parse_request_line"], node)
        ent = {k: S(str(k.a[1]).lower(), "str") for k in found["keys"]}
        return [(st, st.new(Obj("dict", ent=ent), ("line", node)))]

    def parse_header(eng, st, args, kw, node):
        if len(args) != 1 or kw:
            return None
        out = []
        for none in (True, False):
            s = eng.assume(st.fork(), app("isnone", args[0]), none)
            if s is None:
                continue
            if none:
                out.append((s, T("tup", NONE, NONE)))
                continue
            if not isstr(s, args[0]):
                return None
            end(eng, s, found["parse_header"], node)
            d = s.new(Obj("dict", ent={}, base=S("parameters", None, ("items", "str"))), ("params", node))
            out.append((s, T("tup", S("content_type", "unicode"), d)))
        return out

    def hostport(eng, st, args, kw, node):
        if len(args) != 1 or kw or not isstr(st, args[0]):
            return None
        end(eng, st, found["split_domain_port"], node)
        return [(st, T("tup", S("host", "str"), S("port", "str")))]

    def query(eng, st, args, kw, node):
        a = dict(zip(("self", "settings", "query_string", "mutable", "encoding"), args))
        a.update(kw)
        enc = a.get("encoding", NONE)
        x = a.get("query_string", NONE)
        end(eng, st, found["QueryDict", "default" if enc is NONE else "known" if usable(eng, st, enc) else "unknown", x is NONE], node)
        o = st.mut(a["self"])
        o.lazy = True
        o.attrs["settings"] = a["settings"]
        o.x = "lists"
        return [(st, NONE)]
    for n, f in (("parse_request_headers", headers), ("parse_request_line", line), ("split_domain_port", hostport)):
        if n in found:
            con[hp + n] = f
    if "parse_header" in found:
        con[PKG + ".http.multipartparser.parse_header"] = parse_header
    con[ck.cls(HP + "QueryDict") + ".__init__"] = query


DOCUMENTED = ("InvalidHttpRequest", "NoHostFoundException", "TooManyFieldsSent")


def origin(found, q):
    return "; ".join("%s ends with it: %s" % (n if isinstance(n, str) else n[0], brief(ex[q])) for n, ex in sorted(found.items(), key=str) if n != "keys" and q in ex)


def brief(p):
    return " ".join(str(x) for x in list(p.st.trace())[-2:])


@rule("C08", what="The exceptions of every path of the functions that take a header apart (request line, header lines, URI, host, Content-Type, "
                  "query string), each over an arbitrary text, and of every path of parse_request_header() over a stream with any content "
                  "whose every read may fail, given these. Whatever the documented exceptions do not include is reported with the path it "
                  "comes from, and every failed parse is followed by parse_request_body(), which must find no parsed header.",
      assumes=["the default charset names a text codec", "the source fails with IOError or a subclass",
               "every header has at least one value, a text (C24)", "loading an upload handler succeeds (C34)"])
def c08(ck):
    found = pieces(ck)
    a = (S("errno"), S("message"))
    e = ck.engine(keep=True)
    e.cap = 4000
    st = e.start()
    P = source(e, st)
    c = conf(ck, e, st)
    stream_contract(ck, e, P, [error_of(a)])
    contracts(ck, e, found)
    handlers_contract(ck, e)
    multipart_contract(ck, e)
    n = 0
    for s, r in request(ck, e, st, P, c):
        failed = {}
        for p in ck.script(e, s, "r.parse_request_header()", {"r": r}):
            if p.kind == "ret":
                n += 1
                continue
            x = named(ck.prog, p.exc)
            if p.st.ghost.get("failed") is TRUE:
                ck.need("failing-stream", x == "UnreadablePostError", "parse_request_header", "ends with %s when the stream fails" % p.exc, p.st)
            else:
                ck.need("documented", x in DOCUMENTED, "parse_request_header", "ends with %s (%s)" % (p.exc, origin(found, p.exc)), p.st)
            failed.setdefault(x, []).append(p.st)
        for x, states in sorted(failed.items()):
            for t in generic(states, r):
                for b in ck.script(e, fresh_stream(t), "r.parse_request_body()", {"r": r}):
                    ck.need("not-parsed", b.kind == "exc" and named(ck.prog, b.exc) == "RequestHeaderParseException", "parse_request_header",
                            "after it failed with %s the request counts as parsed" % x, b.st)
    ck.need("covered", n, "parse_request_header", "never succeeds")
    ck.minimum("documented", 4)
    ck.minimum("failing-stream", 1)
