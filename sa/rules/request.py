"""C01, C10, C11, C12, C13: the request object over any stream."""
from harness import *
from .streams import source, lazy_obligations, lazy_failures, error_of, passed_on

LAZY = PKG + ".utils.datastructures.LazyStream"
REQ = "http.request.HttpRequest"


def conf(ck, e, st, limit="int", **extra):
    """a settings object with any values of the right types"""
    at = {"MAX_HEADER_SIZE": S("MAX_HEADER_SIZE", "int"), "FILE_UPLOAD_MAX_MEMORY_SIZE": S("FILE_UPLOAD_MAX_MEMORY_SIZE", "int"),
          "DATA_UPLOAD_MAX_MEMORY_SIZE": NONE if limit is None else S("DATA_UPLOAD_MAX_MEMORY_SIZE", "int"),
          "DATA_UPLOAD_MAX_NUMBER_FIELDS": S("DATA_UPLOAD_MAX_NUMBER_FIELDS", "int"),
          "DEFAULT_CHARSET": S("DEFAULT_CHARSET", "str", ("charset",)), "FILE_UPLOAD_TEMP_DIR": S("FILE_UPLOAD_TEMP_DIR", "str")}
    at.update(extra)
    c = e.lazy_inst(st, ck.cls("conf.settings.Settings"), "settings", at)
    if "FILE_UPLOAD_HANDLERS" not in extra:
        st.mut(c).attrs["FILE_UPLOAD_HANDLERS"] = st.new(Obj("list", seq=(("seg", S("handlers", None, ("elems", "str"))),)), "handlers")
    add_lin(st, ladd(lin(at["MAX_HEADER_SIZE"]), lconst(-1)))
    for n in ("DATA_UPLOAD_MAX_MEMORY_SIZE", "FILE_UPLOAD_MAX_MEMORY_SIZE", "DATA_UPLOAD_MAX_NUMBER_FIELDS"):
        if at[n] is not NONE:
            add_lin(st, lin(at[n]))
    return c


def put(st, g, x):
    st.ghost[g] = mkcat(st.ghost[g], x)


def stream_contract(ck, e, P, errors=(), on_read=None):
    """What the rule for C06 establishes about a push-back stream over the source P, instead of its code: a read gives the
    next bytes, fewer only at the end.  G:taken: the bytes handed out and not pushed back."""
    def mine(st, args):
        if not args:
            return False
        if st.ghost.get("S:" + show(P)) is args[0]:
            return True
        if st.ghost.get("old:" + show(args[0])) is TRUE:
            st.ghost["stale"] = TRUE
            return True
        return False

    def init(eng, st, args, kw, node):
        p = args[1] if len(args) > 1 else kw.get("producer")
        if p is not P:
            return None
        old = st.ghost.get("S:" + show(P))
        if old is not None:
            st.ghost["old:" + show(old)] = TRUE
        st.ghost["S:" + show(P)] = args[0]
        st.mut(args[0]).lazy = True
        return [(st, NONE)]

    def fails(eng, st, node):
        for f in errors:
            s = st.fork()
            s.ghost["failed"] = TRUE
            eng.throw(s, f(s), node)

    def take(eng, st, n, node, exact):
        """[(state, bytes)] for a read of at most n bytes (None: of everything)"""
        if "asked" in st.ghost:
            st.ghost["asked"] = mkint(ladd(lin(st.ghost["asked"]), lconst(1)))
        if st.ghost.get("eof") is TRUE:
            return [(st, nothing(st))]
        out = []
        st.ghost["reads"] = TRUE
        c = fresh("data", "str")
        if n is None:
            st.ghost["eof"] = TRUE
            put(st, "G:taken", c)
            return [(st, c)]
        end = st.fork()
        add_lin(st, ladd(lenof(c), lin(n), -1))
        add_lin(st, ladd(lin(n), lenof(c), -1))
        put(st, "G:taken", c)
        if not contradictory(st, []):
            out.append((st, c))
        d = fresh("rest", "str")
        add_lin(end, ladd(ladd(lin(n), lenof(d), -1), lconst(-1)))
        put(end, "G:taken", d)
        end.ghost["eof"] = TRUE
        if not contradictory(end, []):
            out.append((end, d))
        return out

    def nothing(st):
        c = fresh("nothing", "str")
        add_lin(st, lscale(lenof(c), -1))
        put(st, "G:taken", c)
        return c

    def size_of(args, kw):
        return args[1] if len(args) > 1 else kw.get("size", NONE)

    def sized(eng, st, n):
        """[(state, None or a size)]"""
        if n is NONE or typeof(st, n) == "int":
            return [(st, None if n is NONE else n)]
        return [(s, None if c else n) for c, s in [(True, eng.assume(st.fork(), app("isnone", n), True)), (False, eng.assume(st, app("isnone", n), False))]
                if s is not None]

    def read(eng, st, args, kw, node):
        if not mine(st, args):
            return None
        n = size_of(args, kw)
        if on_read:
            on_read(eng, st, n, node)
        fails(eng, st, node)
        return [o for s, k in sized(eng, st, n) for o in take(eng, s, k, node, True)]

    def readline(eng, st, args, kw, node):
        if not mine(st, args):
            return None
        fails(eng, st, node)
        if st.ghost.get("eof") is TRUE:
            return [(st, nothing(st))]
        st.ghost["reads"] = TRUE
        end = st.fork()
        end.ghost["eof"] = TRUE
        out = []
        for s in (st, end):
            c = fresh("line", "str")
            put(s, "G:taken", c)
            out.append((s, c))
        return out

    def nxt(eng, st, args, kw, node):
        if not mine(st, args):
            return None
        fails(eng, st, node)
        end = st.fork()
        end.ghost["eof"] = TRUE
        eng.throwx(end, "StopIteration", node)
        if st.ghost.get("eof") is TRUE:
            return []
        st.ghost["reads"] = TRUE
        c = fresh("chunk", "str")
        put(st, "G:taken", c)
        return [(st, c)]

    def unget(eng, st, args, kw, node):
        if not mine(st, args):
            return None
        b = args[1] if len(args) > 1 else kw.get("bytes", NONE)
        if eng.norm_eq(st, b, const("")):
            return [(st, NONE)]
        p = eng.cut_suffix(st, st.ghost["G:taken"], b)
        if p is None and eng.norm_eq(st, st.ghost["G:taken"], b):
            p = const("")
        if p is None:
            st.ghost["foreign"] = TRUE
            p = fresh("taken", "str")
        st.ghost["G:taken"] = p
        st.ghost["eof"] = FALSE
        return [(st, NONE)]

    def itself(eng, st, args, kw, node):
        return [(st, args[0])] if mine(st, args) else None

    def tell(eng, st, args, kw, node):
        return [(st, fresh("position", "int"))] if mine(st, args) else None
    for n, f in (("__init__", init), ("read", read), ("readline", readline), ("next", nxt), ("__next__", nxt), ("unget", unget),
                 ("__iter__", itself), ("tell", tell)):
        e.contracts[LAZY + "." + n] = f


def fresh_stream(st, P=None):
    """the stream is wherever it may be"""
    st.ghost["G:taken"] = const("")
    st.ghost["eof"] = FALSE
    st.ghost["reads"] = FALSE
    st.ghost["foreign"] = FALSE
    return st


NARROW = {"SCHEME": "http", "DOMAIN": "a", "QUERY_STRING": "a=1"}


def header_contracts(ck, e, narrow=False):
    """(narrow: of one request line, for rules to which its content does not matter)
    the functions that take a header apart: their results may be anything of the right type (C08, C23, C24, C35 look inside)"""
    hp = PKG + ".http.request."
    con = e.contracts

    def headers(eng, st, args, kw, node):
        st.ghost["header"] = TRUE
        bad = st.fork()
        eng.throwx(bad, hp + "InvalidHttpRequest", node)
        d = eng.lazy_inst(st, ck.cls("utils.datastructures.MultiValueDict"), ("headers", node))
        st.mut(d).x = "lists"
        return [(st, T("tup", S("request line", "str"), d))]

    def line(eng, st, args, kw, node):
        bad = st.fork()
        eng.throwx(bad, hp + "InvalidHttpRequest", node)
        ent = {}
        k = ck.cls("http.constants.MetaDict")
        for n in ("METHOD", "SCHEME", "DOMAIN", "PATH", "PARAMS", "QUERY_STRING", "FRAGMENT", "PROTO_INFO"):
            for s, v in eng.getattr(st, T("cls", k), "ReqLine", None):
                for s2, w in eng.getattr(s, v, n, None):
                    ent[w] = const(NARROW[n]) if narrow and n in NARROW else S(n.lower(), "str")
        return [(st, st.new(Obj("dict", ent=ent), ("line", node)))]

    def parse_header(eng, st, args, kw, node):
        if args and args[0] is NONE:
            return [(st, T("tup", NONE, NONE))]
        bad = st.fork()
        eng.throwx(bad, "ValueError", node)
        d = st.new(Obj("dict", ent={}, base=None if narrow else S("parameters", None, ("items", "str"))), ("params", node))
        return [(st, T("tup", S("content_type", "unicode"), d))]

    def hostport(eng, st, args, kw, node):
        return [(st, T("tup", S("host", "str"), const("8080") if narrow else S("port", "str")))]

    def charset(eng, st, args, kw, node):
        return [(st, S("usable", "bool"))]
    for n, f in (("parse_request_headers", headers), ("parse_request_line", line), ("split_domain_port", hostport), ("is_text_charset", charset)):
        con[hp + n] = f
    con[PKG + ".http.multipartparser.parse_header"] = parse_header


def qd_contract(ck, e):
    """building a query dictionary: any content, or too many fields"""
    def init(eng, st, args, kw, node):
        names = ("self", "settings", "query_string", "mutable", "encoding")
        a = dict(zip(names, args))
        a.update(kw)
        q = a.get("query_string", NONE)
        if q is not NONE and not eng.norm_eq(st, q, const("")):
            bad = st.fork()
            eng.throwx(bad, ck.cls("exceptions.exceptions.TooManyFieldsSent"), node)
        o = st.mut(a["self"])
        o.lazy = True
        o.attrs["settings"] = a["settings"]
        o.attrs["\x00from"] = q
        o.attrs["\x00enc"] = a.get("encoding", NONE)
        o.attrs["\x00mutable"] = a.get("mutable", FALSE)
        if q is not NONE and q is not const(""):
            o.base = app("parsed", q)
        o.x = "lists"
        return [(st, NONE)]
    e.contracts[ck.cls("http.request.QueryDict") + ".__init__"] = init


def request(ck, e, st, P, c):
    """[(state, request)]: a new request on a stream over P"""
    st.ghost.update({"G:taken": const(""), "eof": FALSE, "reads": FALSE, "foreign": FALSE})
    return [(p.st, p.v) for p in ck.script(e, st, "R(P, c)", {"R": T("cls", ck.cls(REQ)), "P": P, "c": c}) if p.kind == "ret"]


def parsed(ck, e, limit="int", **kw):
    """[(state, request, source, settings)]: a request whose header is parsed, in any way that succeeds"""
    st = e.start()
    P = source(e, st)
    c = conf(ck, e, st, limit, **kw)
    stream_contract(ck, e, P)
    header_contracts(ck, e)
    qd_contract(ck, e)
    res = []
    for s, r in request(ck, e, st, P, c):
        for p in ck.script(e, s, "r.parse_request_header()", {"r": r}):
            if p.kind == "ret":
                res.append((fresh_stream(p.st), r, P, c))
    return res


def shapes(st, r, skip=("settings",)):
    """the kind of value each attribute of an object has"""
    out = []
    for n, v in sorted(st.get(r).attrs.items()):
        o = st.get(v)
        if n in skip or v is ABSENT:
            continue
        if v is NONE or v.k == "c" and isinstance(v.a[1], bool):
            k = v
        elif o is not None:
            k = (o.kind, o.cls, o.attrs.get("\x00mutable"), o.attrs.get("\x00from") is None or o.attrs["\x00from"] is NONE, o.base is None)
        else:
            k = "text" if isstr(st, v) else typeof(st, v)
        out.append((n, k))
    return tuple(out)


def generic(states, r):
    """one state per kind of request, its texts and numbers arbitrary"""
    seen = {}
    for s in states:
        seen.setdefault(shapes(s, r), s)
    out = []
    for s in seen.values():
        s = s.fork()
        o = s.mut(r)
        for n, v in list(o.attrs.items()):
            ty = typeof(s, v)
            if v.k == "c" and isinstance(v.a[1], bool) or v is NONE or s.get(v) is not None:
                continue
            if isstr(s, v) or ty == "int":
                o.attrs[n] = S(n, ty, ("charset",) if n.endswith("encoding") else ())
        out.append(s)
    return out


def ready(ck, e, limit="int", **kw):
    """requests whose header is parsed and whose body is not"""
    ps = parsed(ck, e, limit, **kw)
    if not ps:
        raise AnalysisBroken("no header can be parsed")
    _, r, P, c = ps[0]
    return [(s, r, P, c) for s in generic([s for s, _, _, _ in ps], r)]


def attr(e, st, v, name):
    outs = e.getattr(st, v, name, None)
    return outs[0][1] if len(outs) == 1 else None


def retained(before, st, r):
    """the attribute of the request that got text or a list since then"""
    old = before.get(r).attrs
    for n, v in st.get(r).attrs.items():
        if old.get(n) is v or v is NONE or v.k == "c" and v.a[1] in ("", False, True):
            continue
        if isstr(st, v) or st.get(v) is not None and (st.get(v).seq is not None or st.get(v).ent is not None):
            return n
    return None


CHUNK = 65536


@rule("C01", what="Every path of body() on a request in any state after its header was parsed, over any stream: the result is exactly what the "
                  "stream delivered up to its end, within the limit; a refusal happens only beyond the limit, at most one chunk beyond it, "
                  "and leaves no stream data in the request. Includes the rules of the push-back stream it reads from.",
      assumes=["the source yields byte strings and, once ended, stays ended"])
def c01(ck):
    for limit in ("int", None):
        what = "body()" if limit else "body() without limit"
        e = ck.engine(keep=True)
        e.cap = 4000
        for st, r, P, c in ready(ck, e, limit):
            mx = st.get(c).attrs["DATA_UPLOAD_MAX_MEMORY_SIZE"]
            ps = ck.script(e, st, "v = r.body()\nw = r.body()\nresult = (v, w)", {"r": r})
            ck.need("covered", any(p.kind == "ret" for p in ps), what, "never returns")
            for p in ps:
                s = p.st
                got = s.ghost["G:taken"]
                ck.need("own-bytes", s.ghost.get("foreign") is not TRUE, what, "bytes are pushed back that were not read", s)
                if p.kind == "ret":
                    v, w = p.v.a
                    ck.need("complete", s.ghost["eof"] is TRUE, what, "returns although the stream has not ended", s)
                    ck.need("complete", e.norm_eq(s, v, got), what, "returns %s although the stream delivered %s" % (show(v), show(got)), s)
                    ck.need("again", e.norm_eq(s, v, w), what, "a second call returns %s, not %s" % (show(w), show(v)), s)
                    if mx is not NONE:
                        ck.need("within-limit", entails(s, ladd(lin(mx), lenof(v), -1)), what, "returns more than the limit", s)
                    continue
                x = excname(p.exc)
                ck.need("raises", x.endswith("RequestDataTooBig") and mx is not NONE, what, "raises %s" % p.exc, s)
                if x.endswith("RequestDataTooBig") and mx is not NONE:
                    over = ladd(lenof(got), lin(mx), -1)
                    ck.need("only-beyond-limit", entails(s, ladd(over, lconst(-1))), what, "refuses a body within the limit", s)
                    ck.need("one-chunk", entails(s, ladd(lconst(CHUNK), over, -1)), what,
                            "takes more than one 64 KB chunk beyond the limit", s)
                    n = retained(st, s, r)
                    ck.need("nothing-kept", n is None, what, "the refused data stays in the attribute %s" % n, s)
    lazy_obligations(ck)
    ck.minimum("complete", 8)
    ck.minimum("only-beyond-limit", 2)



def multipart_contract(ck, e):
    """a multipart parser reads its input, gives two collections or refuses the body (C02, C03, C05, C07, C09, ... look inside)"""
    q = ck.cls("http.multipartparser.MultiPartParser")
    bad = ck.cls("http.multipartparser.MultiPartParserError")

    def init(eng, st, args, kw, node):
        a = dict(zip(("self", "META", "input_data", "upload_handlers", "settings", "encoding"), args))
        a.update(kw)
        x = st.fork()
        eng.throwx(x, bad, node)
        o = st.mut(a["self"])
        o.lazy = True
        for n, v in a.items():
            if n != "self":
                o.attrs["\x00" + n] = v
        return [(st, NONE)]

    def parse(eng, st, args, kw, node):
        o = st.get(args[0])
        x = st.fork()
        eng.throwx(x, bad, node)
        out = []
        n = len(eng.exc)
        for s, f in eng.getattr(st.fork(), o.attrs["\x00input_data"], "next", node):
            for s2, _ in eng.call(s, f, (), {}, node):
                out.append(s2)
        eng.exc[n:] = [(s, x) for s, x in eng.exc[n:] if eng.excclass(s, x) != "StopIteration"]
        res = []
        for s in [st] + out:
            post = eng.lazy_inst(s, ck.cls("http.request.QueryDict"), ("post", node),
                                 {"settings": o.attrs["\x00settings"], "\x00from": T("ext", "multipart"), "\x00mutable": FALSE,
                                  "\x00enc": o.attrs.get("\x00encoding", NONE)})
            files = eng.lazy_inst(s, ck.cls("utils.datastructures.MultiValueDict"), ("files", node), base=S("files"))
            s.mut(files).x = "lists"
            res.append((s, T("tup", post, files)))
        return res
    e.contracts[q + ".__init__"] = init
    e.contracts[q + ".parse"] = parse


def handlers_contract(ck, e):
    """loading an upload handler gives some object (C34)"""
    e.contracts[PKG + ".files.uploadhandler.load_handler"] = lambda eng, st, args, kw, node: [(st, S("handler"))]


@rule("C10", what="Every path of every reading operation of a request over a source whose every read may fail: a path on which the source "
                  "failed ends with UnreadablePostError carrying the source error's arguments, and no other path raises it. The same for the "
                  "push-back stream the request reads through (which passes the error on).",
      assumes=["the source fails with IOError or a subclass"])
def c10(ck):
    a = (S("errno"), S("message"))
    n = S("n", "int")

    def engine():
        e = ck.engine()
        e.cap = 4000
        st = e.start()
        P = source(e, st)
        c = conf(ck, e, st)
        stream_contract(ck, e, P, [error_of(a)])
        header_contracts(ck, e, True)
        qd_contract(ck, e)
        handlers_contract(ck, e)
        multipart_contract(ck, e)
        add_lin(st, lin(n))
        return e, st, P, c
    for src in ("r.read()", "r.read(n)", "r.readline()", "r.readline(n)", "for x in r:\n    pass", "r.readlines()", "for x in r.xreadlines():\n    pass",
                "r.parse_request_header()", "r.body()"):
        e, st, P, c = engine()
        what = src.replace("\n    ", " ")
        k = 0
        for s, r in request(ck, e, st, P, c):
            for p in ck.script(e, s, src, {"r": r, "n": n}):
                k += passed_on(ck, e, p, what, "UnreadablePostError", a)
        ck.need("covered", k > 0, what, "never reads the stream")
    e, st, P, c = engine()
    done = []
    for s, r in request(ck, e, st, P, c):
        done += [p.st for p in ck.script(e, s, "r.parse_request_header()", {"r": r}) if p.kind == "ret"]
    for src in ("r.body()", "r.parse_request_body()"):
        k = 0
        for s in generic(done, r):
            for p in ck.script(e, fresh_stream(s.fork()), src, {"r": r}):
                k += passed_on(ck, e, p, src + " after the header", "UnreadablePostError", a)
        ck.need("covered", k > 1, src, "never reads the stream")
    lazy_failures(ck)
    ck.minimum("same-arguments", 25)


def setup(ck, narrow=True, limit="int"):
    e = ck.engine(keep=True)
    e.cap = 4000
    st = e.start()
    P = source(e, st)
    c = conf(ck, e, st, limit)
    stream_contract(ck, e, P)
    header_contracts(ck, e, narrow)
    qd_contract(ck, e)
    handlers_contract(ck, e)
    multipart_contract(ck, e)
    (st, r), = request(ck, e, st, P, c)
    return e, st, r, P, c


def step(ck, e, states, r, src, env=None):
    """the states after an operation returned normally"""
    out = []
    for s in states:
        out += [p.st for p in ck.script(e, fresh_stream(s.fork()), src, dict({"r": r}, **(env or {}))) if p.kind == "ret"]
    return generic(out, r)


OPERATIONS = ("r.parse_request_header()", "r.body()", "r.parse_request_body()", "r.body_stream = P", "r.stream = P")


def histories(ck, e, st, r, P):
    """requests at every stage of their life, closed under the operations, whether they succeed or not: [(how it got there, state, is
    its header parsed?)]"""
    seen, out, todo = set(), [], [((), st, False)]
    while todo:
        past, s, head = todo.pop(0)
        if len(seen) > 250:
            raise engmod.Budget("too many stages of a request")
        for src in OPERATIONS:
            ck.nsteps += e.steps
            e.steps = 0
            ends = {False: [], True: []}
            for p in ck.script(e, fresh_stream(s.fork()), src, {"r": r, "P": P}):
                ok = {"r.stream = P": False, "r.parse_request_header()": head or p.kind == "ret",
                      "r.body()": head or p.kind == "ret" or excname(p.exc).endswith("RequestDataTooBig")}.get(src, head)
                ends[ok].append(p.st)
            for ok in ends:
                for x in generic(ends[ok], r):
                    k = shapes(x, r), ok
                    if k not in seen:
                        seen.add(k)
                        how = past + (src.replace("r.", ""),)
                        out.append((", ".join(how), x, ok))
                        todo.append((how, x, ok))
    enc = S("given encoding", "str", ("charset",))
    for what, s, ok in list(out):
        if len(what.split(", ")) < 3:
            out += [(what + ", encoding set", x, ok) for x in step(ck, e, [s], r, "r.encoding = E", {"E": enc})]
    return out


OBSERVED = ["r.get_method()", "r.get_scheme()", "r.get_host()", "r.get_port()", "r.get_path()", "r.get_protocol_info()", "r.content_type",
            "r.encoding", "r.GET", "r.META", "r.is_secure()"]


def observe(ck, e, st, r, src):
    n = len(e.exc)
    outs = ck.ev(e, st, src, {"r": r})
    del e.exc[n:]
    return outs


def deep(st, v):
    """the content of an object as a comparable value"""
    o = st.get(v)
    if o is None:
        return v
    if o.kind == "inst" and o.cls is not None and o.ent is None and o.seq is None:
        return v
    return (o.kind, o.cls, tuple((k, deep(st, x)) for k, x in sorted((o.ent or {}).items(), key=lambda p: show(p[0]))), o.base,
            tuple((k, deep(st, x)) for k, x in o.seq or ()), o.attrs.get("\x00mutable"))


def empty(st, v):
    o = st.get(v)
    return o is not None and o.ent is not None and o.base is None and not any(x is not ABSENT for x in o.ent.values())


@rule("C12", what="For a request at every stage (header parsed, raw body read, body parsed, encoding set): after assigning body_stream, the "
                  "header observables are the same values, POST and FILES are empty, the raw body is read from the new stream and a body "
                  "parse reads the new stream, never the old one.",
      assumes=["the stages are reached by successful operations; texts and numbers of the request are arbitrary"])
def c12(ck):
    e, st, r, P, c = setup(ck)

    def stage(x):
        what, s, _ = x
        for q in ck.script(e, fresh_stream(s.fork()), "r.body_stream = P", {"r": r, "P": P}):
            what1 = "body_stream set after " + what
            if not ck.need("accepted", q.kind == "ret", what1, "raises %s" % q.exc, q.st):
                continue
            for src in OBSERVED:
                a, b = observe(ck, e, s, r, src), observe(ck, e, q.st, r, src)
                ok = len(a) == len(b) and all(v is w and deep(x, v) == deep(y, w) for (x, v), (y, w) in zip(a, b))
                ck.need("header-kept", ok, what1 + ": " + src, "%s was %s and is %s" % (src, ", ".join(vshow(x, v) for x, v in a),
                                                                                     ", ".join(vshow(x, v) for x, v in b)), q.st)
            for p in ck.script(e, q.st, "(r.POST, r.FILES)", {"r": r}):
                ck.need("body-reset", p.kind == "ret" and all(empty(p.st, x) for x in p.v.a), what1,
                        "POST or FILES is not empty", p.st)
            for p in ck.script(e, fresh_stream(q.st.fork()), "r.parse_request_header()", {"r": r}):
                ck.need("header-kept", p.kind == "ret" and p.st.ghost["reads"] is FALSE, what1, "the header is parsed again", p.st)
            for p in ck.script(e, fresh_stream(q.st.fork()), "r.body()", {"r": r}):
                fresh_body(ck, e, p, what1)
            for p in ck.script(e, fresh_stream(q.st.fork()), "r.parse_request_body()", {"r": r}):
                ck.need("parsed-again", p.kind == "exc" or p.st.ghost["reads"] is TRUE, what1, "the new body is not read", p.st)
                ck.need("new-stream", p.st.ghost.get("stale") is not TRUE, what1, "the old stream is read", p.st)
    ck.spread([x for x in histories(ck, e, st, r, P) if x[2]], stage)
    ck.minimum("header-kept", 60)
    ck.minimum("raw-body", 8)


def fresh_body(ck, e, p, what):
    s = p.st
    ck.need("new-stream", s.ghost.get("stale") is not TRUE, what, "the old stream is read", s)
    if p.kind == "ret":
        ck.need("raw-body", e.norm_eq(s, p.v, s.ghost["G:taken"]), what, "body() gives %s although the new stream delivers %s" % (
            show(p.v), show(s.ghost["G:taken"])), s)
    else:
        ck.need("raw-body", excname(p.exc).endswith("RequestDataTooBig"), what, "body() raises %s" % p.exc, s)


@rule("C11", what="For a request at every stage: after assigning stream, the header observables are those of a new request, the header is "
                  "parsed anew from the new stream (never the old one), the raw body is the new stream's, and after parsing, POST, FILES, GET "
                  "and the encoding come from the new stream.",
      assumes=["the stages are reached by successful operations; texts and numbers of the request are arbitrary"])
def c11(ck):
    e, st, r, P, c = setup(ck)

    def stage(x):
        what, s, _ = x
        old = {n: v for n, v in s.get(r).attrs.items()}
        for q in ck.script(e, fresh_stream(s.fork()), "r.stream = P", {"r": r, "P": P}):
            what1 = "stream set after " + what
            if not ck.need("accepted", q.kind == "ret", what1, "raises %s" % q.exc, q.st):
                continue
            for src in OBSERVED:
                a, b = observe(ck, e, st, r, src), observe(ck, e, q.st, r, src)
                ok = len(a) == len(b) and all(deep(x, v) == deep(y, w) for (x, v), (y, w) in zip(a, b))
                ck.need("header-reset", ok, what1 + ": " + src, "%s is %s, that of a new request is %s" % (
                    src, ", ".join(vshow(y, w) for y, w in b), ", ".join(vshow(x, v) for x, v in a)), q.st)
            z = fresh_stream(q.st.fork())
            z.ghost["header"] = FALSE
            for p in ck.script(e, z.fork(), "r.parse_request_header()", {"r": r}):
                ck.need("new-stream", p.st.ghost.get("stale") is not TRUE, what1, "the old stream is read", p.st)
                if p.kind == "ret":
                    ck.need("parsed-anew", p.st.ghost["header"] is TRUE and p.st.ghost["reads"] is TRUE, what1, "the new header is not parsed", p.st)
                    enc = [v for _, v in observe(ck, e, p.st, r, "r.encoding")]
                    ck.need("parsed-anew", all(v is not old.get("_encoding") or v is NONE for v in enc), what1, "the old encoding is used", p.st)
            n = 0
            for p in ck.script(e, z.fork(), "r.body()", {"r": r}):
                ck.need("new-stream", p.st.ghost.get("stale") is not TRUE, what1, "the old stream is read", p.st)
                if p.kind == "ret":
                    n += 1
                    ck.need("raw-body", p.st.ghost["header"] is TRUE and (e.norm_eq(p.st, p.v, const("")) or
                            e.cut_suffix(p.st, p.st.ghost["G:taken"], p.v) is not None),
                            what1, "body() gives %s, which is not what the new stream delivers behind the header, %s" % (show(p.v), show(p.st.ghost["G:taken"])), p.st)
            ck.need("covered", n > 0, what1, "body() never returns")
            n = 0
            for p in ck.script(e, z.fork(), "r.parse()\nresult = (r.POST, r.FILES, r.GET)", {"r": r}):
                ck.need("new-stream", p.st.ghost.get("stale") is not TRUE, what1, "the old stream is read", p.st)
                if p.kind != "ret":
                    continue
                n += 1
                for name, v in zip(("POST", "FILES", "GET"), p.v.a):
                    ck.need("new-result", v is not old.get(name), what1 + ": " + name, "%s is still that of the previous stream" % name, p.st)
                ck.need("new-result", p.st.ghost["header"] is TRUE, what1, "the new header is not parsed", p.st)
            ck.need("covered", n > 0, what1, "parse() never returns")
    ck.spread(histories(ck, e, st, r, P), stage)
    ck.minimum("header-reset", 60)
    ck.minimum("new-result", 60)


@rule("C13", what="Call sequences on a request at every stage, over any stream: a body parse without a successful header parse raises "
                  "RequestHeaderParseException and reads nothing; repeating a completed parse reads nothing and changes no attribute; body() gives the same again without reading; body() "
                  "after a form body was parsed raises RawPostDataException.",
      assumes=["the stages are reached by the operations named; texts and numbers of the request are arbitrary"])
def c13(ck):
    e, st, r, P, c = setup(ck)
    bodies = [("a new request", st)]
    n = 0
    for p in ck.script(e, fresh_stream(st.fork()), "r.parse_request_header()", {"r": r}):
        if p.kind == "exc":
            bodies.append(("a request whose header was refused", p.st))
    stages = histories(ck, e, st, r, P)
    for what, s, head in stages:
        if not head:
            bodies.append(("a request after " + what, s))
    for what, s in bodies:
        for p in ck.script(e, fresh_stream(s.fork()), "r.parse_request_body()", {"r": r}):
            ck.need("header-first", p.kind == "exc" and excname(p.exc).endswith("RequestHeaderParseException"), what,
                    "parse_request_body() %s" % outcome(p.kind, p.v, p.exc), p.st)
            ck.need("header-first", p.st.ghost["reads"] is FALSE, what, "parse_request_body() reads the stream", p.st)
    head = step(ck, e, [st], r, "r.parse_request_header()")
    for s in head:
        same_after(ck, e, s, r, "r.parse_request_header()", "a parsed header")
    for s in step(ck, e, head, r, "r.parse_request_body()"):
        same_after(ck, e, s, r, "r.parse_request_header()", "a parsed body")
        same_after(ck, e, s, r, "r.parse_request_body()", "a parsed body")
        same_after(ck, e, s, r, "r.parse()", "a parsed body")
    for s in head:
        for p in ck.script(e, fresh_stream(s.fork()), "r.body()", {"r": r}):
            if p.kind == "ret":
                for z in ck.script(e, fresh_stream(p.st.fork()), "r.body()", {"r": r}):
                    ck.need("raw-again", z.kind == "ret" and e.norm_eq(z.st, z.v, p.v), "body() asked again",
                            "%s after it returned %s" % (outcome(z.kind, z.v, z.exc), show(p.v)), z.st)
                    ck.need("raw-again", z.st.ghost["reads"] is FALSE, "body() asked again", "reads the stream", z.st)
    forms = ("multipart/form-data", "application/x-www-form-urlencoded")
    for s in head:
        for p in ck.script(e, fresh_stream(s.fork()), "r.parse_request_body()", {"r": r}):
            if p.kind != "ret":
                continue
            for f in forms:
                yes, _ = ck.split(e, p.st, "r.content_type == f", {"r": r, "f": const(f)})
                for x in yes:
                    for z in ck.script(e, fresh_stream(x), "r.body()", {"r": r}):
                        ck.need("raw-after-form", z.kind == "exc" and excname(z.exc).endswith("RawPostDataException"), f,
                                "body() %s" % outcome(z.kind, z.v, z.exc), z.st)
    ck.minimum("header-first", 10)
    ck.minimum("idempotent", 10)
    ck.minimum("raw-after-form", 2)
    ck.minimum("raw-again", 2)


def same_after(ck, e, s, r, src, what):
    before = {n: (v, deep(s, v)) for n, v in s.get(r).attrs.items()}
    for p in ck.script(e, fresh_stream(s.fork()), src, {"r": r}):
        ok = p.kind == "ret" and p.v is NONE
        ck.need("idempotent", ok, "%s on %s" % (src, what), outcome(p.kind, p.v, p.exc), p.st)
        ck.need("idempotent", p.st.ghost["reads"] is FALSE, "%s on %s" % (src, what), "reads the stream", p.st)
        after = {n: (v, deep(p.st, v)) for n, v in p.st.get(r).attrs.items()}
        diff = [n for n in set(before) | set(after) if before.get(n) != after.get(n)]
        ck.need("idempotent", not diff, "%s on %s" % (src, what), "changes %s" % ", ".join(sorted(diff)), p.st)
