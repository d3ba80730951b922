"""The rules about what a multipart parser does with the parts of a body, whatever the parts are."""
from harness import *
from .request import conf
from .multipart import MP, symheader, meta
from .files import delivered, HANDLERS, FILES as MODEL

ITERP, ITERF = T("ext", "iter:parts"), T("ext", "iter:part")


def kind_const(ck, name):
    m = ck.prog.mods[PKG + "." + MP[:-1]]
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name and isinstance(n.value, ast.Constant):
            return const(n.value.value)
    raise AnalysisBroken("no constant %s" % name)


class World:
    """a multipart parser over abstract parts: part(state) -> [(state, kind, metadata)] says which parts there may be"""

    def __init__(self, ck, part, limit="int", fields="int", enc=None, handlers=(), watch=None, cap=4000, rule=None, length="7", keep=True):
        self.ck, self.watch = ck, watch or {}
        self.e = e = ck.engine(rule, keep=keep)
        e.cap = cap
        self.st = st = e.start()
        for g in ("input-used", "stream-used", "ended"):
            st.ghost[g] = FALSE
        symheader(ck, e)
        ck_header(ck, e)
        e.contracts[PKG + ".utils.text.unescape_entities"] = lambda eng, st, args, kw, node: [(st, args[0])]
        ex = {}
        if fields is None:
            ex["DATA_UPLOAD_MAX_NUMBER_FIELDS"] = NONE
        self.c = conf(ck, e, st, limit, **ex)
        self.P = st.new(Obj("inst", cls=T("ext", "input"), lazy=True), "input")
        self.part = part
        self.enc = enc
        self.stream()
        self.h = [h(self, st) for h in handlers]
        m = meta(st, const("multipart/form-data; boundary=b"), const(length), ck.cls("utils.datastructures.MultiValueDict"))
        self.env = {"M": T("cls", ck.cls(MP + "MultiPartParser")), "m": m, "P": self.P, "c": self.c, "enc": enc if enc is not None else NONE,
                    "hs": st.new(Obj("list", seq=tuple(("one", h) for h in self.h)), "handlers")}

    def need(self, clause, ok, what, msg, st):
        """an obligation, once the invariants of the loops are established"""
        return self.ck.need(clause, ok, what, msg, st) if self.e.dry == 0 else ok

    def saw(self, what, *a):
        f = self.watch.get(what)
        if f:
            return f(*a)

    def stream(self):
        ck, e = self.ck, self.e

        def parser(eng, st, args, kw, node):
            st.ghost["parts"] = TRUE
            return [(st, st.new(Obj("inst", cls=ITERP, lazy=True), ("parts", node)))]

        def nxt(eng, st, args, kw, node):
            o = st.get(args[0])
            if o is None or o.cls is None or o.cls not in (ITERP, ITERF):
                return None
            if o.cls is ITERF:
                return self.chunk(eng, st, args[0], node)
            self.saw("next", st)
            end = st.fork()
            end.ghost["ended"] = TRUE
            eng.throwx(end, "StopIteration", node)
            out = []
            for s, k, d, note in self.part(st):
                f = s.new(Obj("inst", cls=ITERF, lazy=True, attrs=dict(note, ended=FALSE)), ("stream", node))
                self.saw("part", s, f)
                out.append((s, T("tup", k, d, f)))
            return out

        def read(eng, st, args, kw, node):
            o = st.get(args[0])
            if o is None or o.cls is not ITERF:
                return None
            n = args[1] if len(args) > 1 else kw.get("size", NONE)
            x = fresh("data", "str")
            if n is not NONE and (typeof(st, n) == "int" or lin(n)):
                add_lin(st, ladd(lin(n), lenof(x), -1))
            self.saw("read", st, st.mut(args[0]), n, x, node)
            return [(st, x)]

        def whole(eng, st, args, kw, node):
            x = args[0]
            o = st.get(x)
            if o is not None and o.cls is ITERF:
                st.mut(x).attrs["ended"] = TRUE
                self.saw("end", st, x)
            elif x is self.P:
                st.ghost["input-used"] = TRUE
            else:
                st.ghost["stream-used"] = TRUE
            return [(st, NONE)]
        e.contracts[ck.cls(MP + "Parser")] = parser
        e.contracts[PKG + "." + MP + "exhaust"] = whole
        e.ext_contracts[".next"] = nxt
        e.ext_contracts[".read"] = read

    def chunk(self, eng, st, f, node):
        if st.get(f).attrs["ended"] is TRUE:
            eng.throwx(st, "StopIteration", node)
            return []
        end = st.fork()
        end.mut(f).attrs["ended"] = TRUE
        self.saw("end", end, f)
        eng.throwx(end, "StopIteration", node)
        x = fresh("chunk", "str")
        add_lin(st, ladd(lenof(x), lconst(-1)))
        self.saw("chunk", st, f, x, node)
        return [(st, x)]

    def parse(self, script="r = M(m, P, hs, c, enc)\nx = r.parse()\nresult = x"):
        return self.ck.script(self.e, self.st, script, self.env)


def ck_header(ck, e):
    """the header names a valid boundary"""
    def parse_header(eng, st, args, kw, node):
        d = st.new(Obj("dict", ent={const("boundary"): const("b")}), ("params", node))
        return [(st, T("tup", const("multipart/form-data"), d))]
    e.contracts[PKG + "." + MP + "parse_header"] = parse_header


def dic(st, site, **ent):
    return st.new(Obj("dict", ent={const(k.replace("_", "-")): v for k, v in ent.items()}), site)


def field_part(ck, st, enc=None, name=None):
    d = dic(st, "disposition", name=name or S("name", "str"))
    e = {"content_disposition": T("tup", const("form-data"), d)}
    if enc is not None:
        e["content_transfer_encoding"] = T("tup", enc, dic(st, "x"))
    return kind_const(ck, "FIELD"), dic(st, "metadata", **e), d


def file_part(ck, st, enc=None, ct=None, name=None, filename=None, **more):
    d = dic(st, "disposition", name=name or S("name", "str"), filename=filename or S("filename", "str"))
    e = {"content_disposition": T("tup", const("form-data"), d)}
    if enc is not None:
        e["content_transfer_encoding"] = T("tup", enc, dic(st, "x"))
    e.update(more)
    return kind_const(ck, "FILE"), dic(st, "metadata", **e), d


def add(st, g, x):
    st.ghost[g] = mkint(ladd(lin(st.ghost[g]), x))


@rule("C02", what="The loop over the parts of a multipart body, with an invariant for the bytes counted: whenever the next part is asked for, what "
                  "the fields took is within the limit; each read of a field asks for no more than what is left; the limit is reported only "
                  "when it is exceeded, and never when it is None.")
def c02(ck):
    F = MP + "MultiPartParser.parse"
    for limit in ("int", None):
        for enc, files in ((None, False), (const("base64"), False), (const("8bit"), False), (None, True)):
            what = "%s field%s, %s" % ("plain" if enc is None else enc.a[1], " and files" if files else "", "a limit" if limit else "no limit")

            def part(st):
                allow = mkint(ladd(lin(mx(st)), lin(st.ghost["total"]), -1)) if limit else NONE
                s = st.fork()
                name = S("name", "str")
                k, d, _ = field_part(ck, s, enc, name)
                add(s, "total", ladd(lenof(app("strip", name)), lconst(2)))
                out = [(s, k, d, {"allow": allow})]
                if not files:
                    return out
                s = st.fork()
                k, d, _ = file_part(ck, s)
                out.append((s, k, d, {}))
                s = st.fork()
                out.append((s, kind_const(ck, "RAW"), dic(s, "metadata"), {}))
                return out

            def nxt(st):
                if limit:
                    w.need("within", entails(st, ladd(lin(mx(st)), lin(st.ghost["total"]), -1)), what,
                           "the fields stored may take %s, more than the limit" % show(st.ghost["total"]), st)

            def read(st, part, n, x, node):
                left = part.attrs.get("allow")
                if left is None:
                    return
                if limit:
                    w.need("asks", n is not NONE and entails(st, ladd(lin(left), lin(n), -1)), what,
                           "a field is read with size %s, more than the allowance" % show(n), st)
                    part.attrs["allow"] = mkint(ladd(lin(left), lenof(x), -1))
                add(st, "total", lenof(x))
            w = World(ck, part, limit, None, watch={"next": nxt, "read": read})
            mx = lambda st: st.get(w.c).attrs["DATA_UPLOAD_MAX_MEMORY_SIZE"]
            w.st.ghost["total"] = ZERO
            ret = 0
            for p in w.parse():
                if p.kind == "ret":
                    ret += 1
                    continue
                if excname(p.exc).endswith("RequestDataTooBig"):
                    ck.need("refuses", limit is not None and entails(p.st, ladd(ladd(lin(p.st.ghost["total"]), lin(mx(p.st)), -1), lconst(-1))),
                            what, "refused although the fields take %s" % show(p.st.ghost["total"]), p.st)
            ck.need("covered", ret > 0, what, "never returns")
    ck.minimum("asks", 2)
    ck.minimum("refuses", 2)


def query_limit(ck, what, src, env0, e=None):
    """a query string is refused exactly when it splits into more than the positive limit n pairs"""
    e = e or ck.engine(keep=True)
    for limited in (True, False):
        st = e.start()
        n, q = S("n", "int"), S("qs", "unicode")
        env = env0(e, st, n if limited else NONE, q)
        if limited:
            add_lin(st, ladd(lin(n), lconst(-1)))
        w = what + ("" if limited else " without limit")
        k = 0
        for p in ck.script(e, st, src, env):
            over = [(s, ladd(ladd(lin(v), lin(n), -1), lconst(-1))) for s, v in ck.ev(e, p.st, "len(re.split('[&;]', qs))", {"re": T("ext", "re"), "qs": q})]
            if p.kind == "ret":
                k += 1
                if limited:
                    ck.need("refused", all(entails(s, ladd(lscale(d, -1), lconst(-1))) for s, d in over), w, "accepts more than n pairs", p.st)
            elif excname(p.exc).endswith("TooManyFieldsSent"):
                ck.need("accepted", limited and all(entails(s, d) for s, d in over), w, "refuses although there are at most n pairs", p.st)
        ck.need("covered", k > 0, w, "never returns")


@rule("C03", what="Every path of limited_parse_qsl and of building a query dictionary from text: refused exactly when the text splits into more "
                  "pairs than the limit; GET and the urlencoded body are built with the request's settings; in the loop over multipart parts, "
                  "an invariant: at most the limit of fields was accepted when the next part is asked for, and the refusal comes only beyond it.",
      assumes=["a limit of at least 1, or None"])
def c03(ck):
    from .request import setup, step
    f = ck.fn("utils.http.limited_parse_qsl")
    query_limit(ck, "limited_parse_qsl", "r = f(qs, fields_limit=n)\nresult = r", lambda e, st, n, q: {"f": f, "qs": q, "n": n})
    query_limit(ck, "limited_parse_qsl keeping blanks", "r = f(qs, True, 'utf-8', 'replace', n)\nresult = r", lambda e, st, n, q: {"f": f, "qs": q, "n": n})
    K = T("cls", ck.cls("http.request.QueryDict"))

    def qd(e, st, n, q):
        return {"K": K, "qs": q, "c": conf(ck, e, st, DATA_UPLOAD_MAX_NUMBER_FIELDS=n)}
    query_limit(ck, "QueryDict", "r = K(c, qs)\nresult = r", qd)
    query_limit(ck, "mutable QueryDict", "r = K(c, qs, mutable=True, encoding='utf-8')\nresult = r", qd)
    # the request hands its own settings on
    e, st, r, P, c = setup(ck, narrow=False)
    head = step(ck, e, [st], r, "r.parse_request_header()")
    n = 0
    for s in head:
        for p in ck.script(e, s, "x = r.GET\nresult = x", {"r": r}):
            o = p.st.get(p.v) if p.kind == "ret" else None
            if ck.need("settings", o is not None, "GET", "is no query dictionary", p.st):
                n += 1
                ck.need("settings", o.attrs.get("settings") is c, "GET", "is built with other settings than the request's", p.st)
        for p in ck.script(e, s.fork(), "r.parse_request_body()\nx = r.POST\nresult = x", {"r": r}):
            o = p.st.get(p.v) if p.kind == "ret" else None
            if p.kind == "ret" and ck.need("settings", o is not None, "POST", "is no query dictionary", p.st):
                n += 1
                ck.need("settings", o.attrs.get("settings") is c, "POST", "is built with other settings than the request's", p.st)
    ck.need("covered", n >= 2, "the request", "GET and POST are not built")
    for limited in (True, False):
        what = "multipart parts" + ("" if limited else " without limit")

        def part(st):
            s = st.fork()
            k, d, _ = field_part(ck, s)
            add(s, "fields", lconst(1))
            out = [(s, k, d, {})]
            s = st.fork()
            k, d, _ = file_part(ck, s)
            out.append((s, k, d, {}))
            s = st.fork()
            out.append((s, kind_const(ck, "RAW"), dic(s, "metadata"), {}))
            return out

        def nxt(st):
            if limited:
                w.need("refused", entails(st, ladd(lin(mx(st)), lin(st.ghost["fields"]), -1)), what, "more fields than the limit may be accepted", st)
        w = World(ck, part, None, "int" if limited else None, watch={"next": nxt})
        mx = lambda st: st.get(w.c).attrs["DATA_UPLOAD_MAX_NUMBER_FIELDS"]
        w.st.ghost["fields"] = ZERO
        k = 0
        for p in w.parse():
            if p.kind == "ret":
                k += 1
            elif excname(p.exc).endswith("TooManyFieldsSent"):
                ck.need("accepted", limited and entails(p.st, ladd(ladd(lin(p.st.ghost["fields"]), lin(mx(p.st)), -1), lconst(-1))), what,
                        "refuses a number of fields within the limit", p.st)
        ck.need("covered", k > 0, what, "never returns")
    ck.minimum("accepted", 6)


HAND = T("ext", "handler")
UP = "files.uploadhandler."


class Protocol:
    """what handlers that may do anything are sent while a body is parsed, as an automaton over the events; the handlers' answers are all tried"""

    def __init__(self, ck, what, n=2, signals=("skip", "stop", "reset"), part=None, decoded=None, claims=True, files=True, expect=None):
        self.ck, self.what, self.n, self.signals, self.claims, self.expect = ck, what, n, signals, claims, expect
        self.chunks = decoded
        w = self.w = World(ck, part or self.parts, None, None, handlers=[self.handler] * n,
                           watch={"next": self.next, "part": self.part, "chunk": self.chunk, "end": self.end}, keep=False)
        e, st = w.e, w.st
        e.maxparts = 60
        self.cls = {k: T("cls", ck.cls(UP + v)) for k, v in (("skip", "SkipFile"), ("stop", "StopUpload"), ("claim", "StopFutureHandlers"))}
        for k, v in (("phase", "none"), ("turn", "0"), ("due", False), ("up", "0"), ("cur", None), ("halt", "no")):
            st.ghost[k] = const(v)
        for i in range(n):
            st.ghost["off%d" % i] = ZERO
            st.mut(w.h[i]).attrs.update(index=const(i), chunk_size=const(65536) if i == 0 else NONE)
        for m in ("handle_raw_input", "new_file", "receive_data_chunk", "file_complete", "upload_complete"):
            e.ext_contracts["." + m] = self.method(getattr(self, m))
        if files:
            e.ext_contracts[".close"] = self.method(lambda *a: None, self.close)

    def handler(self, w, st):
        return st.new(Obj("inst", cls=HAND, lazy=True, attrs={"chunk_size": const(65536)}), "handler")

    def method(self, f, other=None):
        def run(eng, st, args, kw, node):
            o = st.get(args[0])
            if o is None or o.cls is not HAND or "index" not in o.attrs:
                return other(eng, st, args, kw, node) if other else None
            return f(eng, st, o.attrs["index"].a[1], list(args[1:]), kw, node)
        return run

    def need(self, clause, ok, msg, st):
        return self.w.need(clause, ok, self.what, msg, st)

    def parts(self, st):
        out = []
        s = st.fork()
        out.append((s,) + file_part(self.ck, s)[:2] + ({},))
        s = st.fork()
        out.append((s,) + field_part(self.ck, s)[:2] + ({},))
        s = st.fork()
        out.append((s, kind_const(self.ck, "RAW"), dic(s, "metadata"), {}))
        return out

    # -- events
    def given(self, st):
        g = st.ghost
        return g["phase"].a[1] == "claimed" or g["phase"].a[1] in ("new", "data") and int(g["turn"].a[1]) >= self.n

    def next(self, st):
        g = st.ghost
        ph = g["phase"].a[1]
        self.need("goes-on", g["halt"].a[1] == "no", "parsing goes on after the upload was stopped", st)
        self.need("completes", g["due"] is FALSE, "file_complete() was not called for a file that was received", st)
        self.need("parts", g["stream-used"] is FALSE, "the parts behind this one are thrown away", st)
        self.need("all-data", ph not in ("new", "claimed", "data"), "the data of a file is not read to its end", st)

    def part(self, st, f):
        g = st.ghost
        if g["phase"].a[1] == "complete":
            g["due"] = TRUE
        g["phase"], g["turn"] = const("none"), const("0")

    def end(self, st, f):
        g = st.ghost
        if g["phase"].a[1] in ("new", "claimed", "data"):
            self.need("every-handler", self.given(st), "not every handler was told of the file or its last chunk", st)
            g["phase"], g["turn"], g["cur"] = const("complete"), const("0"), NONE

    def chunk(self, st, f, x, node):
        g = st.ghost
        if g["phase"].a[1] == "skipped":
            return
        self.need("every-handler", self.given(st), "not every handler was told of the file or its last chunk before the next is read", st)
        g["phase"], g["turn"], g["cur"] = const("data"), const("0"), x

    def signal(self, eng, st, k, node):
        s = st.fork()
        g = s.ghost
        g["phase"] = const({"skip": "skipped", "claim": "claimed"}.get(k, "stopped"))
        if k in ("stop", "reset"):
            g["halt"] = const(k)
        g["turn"], g["cur"] = const("0"), NONE
        if k in ("skip", "stop", "reset"):
            self.aborted(s)
        for s2, x in eng.call(s, self.cls["stop" if k == "reset" else k], (const(k == "reset"),) if k in ("stop", "reset") else (), {}, node):
            eng.throw(s2, x, node)

    def aborted(self, st):
        pass

    def alive(self, st, m):
        self.need("goes-on", st.ghost["halt"].a[1] == "no", "%s() is called after the upload was stopped" % m, st)

    def handle_raw_input(self, eng, st, i, a, kw, node):
        return [(st, NONE)]

    def new_file(self, eng, st, i, a, kw, node):
        g = st.ghost
        self.alive(st, "new_file")
        ph = g["phase"].a[1]
        self.need("completes", g["due"] is FALSE, "new_file() is called before file_complete() of the file before", st)
        self.need("new-file", ph in ("none", "new") and g["turn"].a[1] == str(i), "new_file() is called on handler %d %s" % (
            i, "after a handler claimed the file" if ph == "claimed" else "out of order"), st)
        if self.expect:
            self.expect(self, st, a, kw)
        if i == 0:
            for k in range(self.n):
                g["off%d" % k] = ZERO
        for k in (("claim",) if self.claims else ()) + self.signals:
            self.signal(eng, st, k, node)
        g["phase"], g["turn"] = const("new"), const(str(i + 1))
        return [(st, NONE)]

    def receive_data_chunk(self, eng, st, i, a, kw, node):
        g = st.ghost
        self.alive(st, "receive_data_chunk")
        x, n = arg(a, kw, 0, "raw_data"), arg(a, kw, 1, "start")
        if self.chunks:
            self.chunks(self, st, i, x, node)
        self.need("chunk", g["phase"].a[1] == "data" and g["turn"].a[1] == str(i), "a chunk is sent to handler %d out of turn" % i, st)
        self.need("chunk", x is g["cur"] or eq(eng, st, x, g["cur"]), "handler %d receives %s, not %s" % (
            i, show(x), "the chunk read" if i == 0 else "what the handler before it returned"), st)
        off = "off%d" % i
        self.need("offset", entails_eq(st, lin(n), lin(g[off])), "handler %d receives a chunk at offset %s, having received %s bytes" % (i, show(n), show(g[off])), st)
        g[off] = mkint(ladd(lin(g[off]), lenof(x)))
        for k in self.signals:
            self.signal(eng, st, k, node)
        end = st.fork()
        end.ghost["turn"], end.ghost["cur"] = const(str(self.n)), NONE
        y = getattr(self, "returned", None) or fresh("returned", "str")
        g["turn"], g["cur"] = const(str(i + 1)), y if i + 1 < self.n else NONE
        return [(end, NONE), (st, y)]

    def file_complete(self, eng, st, i, a, kw, node):
        g = st.ghost
        self.alive(st, "file_complete")
        n = arg(a, kw, 0, "file_size")
        k = "0" if g["due"] is TRUE else g["due"].a[1]
        self.need("completes", g["due"] is not FALSE and k == str(i), "file_complete() is called on handler %d %s" % (
            i, "without a complete file" if g["due"] is FALSE else "out of order"), st)
        self.need("total", entails_eq(st, lin(n), lin(g["off%d" % i])), "file_complete() of handler %d is told %s, having received %s bytes" % (
            i, show(n), show(g["off%d" % i])), st)
        for k in self.signals:
            if k != "skip":
                self.signal(eng, st, k, node)
        none = st.fork()
        none.ghost["due"] = FALSE if i + 1 == self.n else const(str(i + 1))
        f = st.new(Obj("inst", cls=T("ext", "delivered"), lazy=True), ("delivered", node))
        g["due"] = FALSE
        return [(none, NONE), (st, f)]

    def upload_complete(self, eng, st, i, a, kw, node):
        g = st.ghost
        self.need("upload-complete", g["up"].a[1] == str(i), "upload_complete() is called on handler %d out of order" % i, st)
        g["up"] = const(str(i + 1))
        done = st.fork()
        done.ghost["up"] = const(str(self.n))
        return [(st, NONE), (done, TRUE)]

    def close(self, eng, st, args, kw, node):
        return None

    def run(self):
        ck, ret = self.ck, 0
        for p in self.w.parse():
            g = p.st.ghost
            if p.kind == "exc":
                x = excname(p.exc)
                ck.need("fails", x not in ("SkipFile", "StopUpload", "StopFutureHandlers"), self.what, "%s escapes to the caller" % x, p.st)
                continue
            ret += 1
            ck.need("upload-complete", g["up"].a[1] == str(self.n), self.what, "returns without upload_complete() of every handler", p.st)
            ck.need("parts", g["halt"].a[1] != "no" or g["ended"] is TRUE, self.what, "returns before the last part", p.st)
            ck.need("completes", g["halt"].a[1] != "no" or g["due"] is FALSE, self.what, "returns without file_complete() of a file that was received", p.st)
            if g["halt"].a[1] == "reset":
                ck.need("input", g["input-used"] is FALSE, self.what, "the input is read on although the connection is to be reset", p.st)
            else:
                ck.need("input", g["input-used"] is TRUE, self.what, "the rest of the input is not consumed", p.st)
            self.result(p)
        ck.need("covered", ret > 0, self.what, "never returns")

    def result(self, p):
        pass


def arg(a, kw, i, name):
    return a[i] if i < len(a) else kw.get(name, NONE)


def eq(eng, st, a, b):
    return a is not NONE and b is not NONE and eng.norm_eq(st, a, b)


@rule("C21", what="An automaton of the upload protocol run along every path of the loop over the parts, with handlers that may return anything "
                  "and raise SkipFile, StopUpload or StopFutureHandlers anywhere: each call, its chunk, its offset and its total are those "
                  "the protocol allows, nothing is left out, and the input is consumed unless the connection is to be reset.")
def c21(ck):
    for n in (1, 2):
        Protocol(ck, "%d handlers" % n, n).run()


@rule("C20", what="An inductive invariant of each upload handler after any number of files and chunks gives the position, the size and the description "
                  "of the file it delivers; every path of the loop over the parts hands new_file() the description of that part; and in bodies "
                  "of up to two files, what a handler returns for a file is found in FILES under the field name of its part.",
      assumes=["temporary files and BytesIO store what is written to them"])
def c20(ck):
    delivered(ck)
    F = ck.fn("utils.encoding.force_text")
    for enc in (None, S("encoding", "str", ("charset",))):
        for ct, te, cl in ((0, 0, 0), (1, 1, 1)):
            what = "the description of a file part%s%s" % (" with all headers" if ct else "", " and a charset" if enc is not None else "")
            x = {k: S(k, "str") for k in ("name", "filename", "type", "te", "charset")}
            n = [0]

            def text(e, st, v, enc=enc):
                enc2 = enc if enc is not None else const("utf-8")
                return ck.ev(e, st, "f(x, enc, errors='replace')", {"f": F, "x": v, "enc": enc2 if enc is not None else st.get(pr.w.c).attrs["DEFAULT_CHARSET"]})

            def part(st):
                s = st.fork()
                m = {}
                if ct:
                    ex = dic(s, "extra", charset=x["charset"])
                    s.ghost["extra"] = ex
                    m["content_type"] = T("tup", x["type"], ex)
                if cl:
                    m["content_length"] = T("tup", S("length", "str"), dic(s, "x"))
                d = dic(s, "disposition", name=x["name"], filename=x["filename"])
                m["content_disposition"] = T("tup", const("form-data"), d)
                if te:
                    m["content_transfer_encoding"] = T("tup", x["te"], dic(s, "x"))
                return [(s, kind_const(ck, "FILE"), dic(s, "metadata", **m), {})]

            def expect(pr, st, a, kw):
                if pr.w.e.dry:
                    return
                n[0] += 1
                e = pr.w.e
                v = {k: arg(a, kw, i, k) for i, k in enumerate(("field_name", "file_name", "content_type", "content_length", "charset",
                                                                "content_type_extra", "transfer_encoding"))}

                def is_(k, want, st2):
                    pr.need("described", v[k] is want or want is not NONE and v[k] is not NONE and e.norm_eq(st2, v[k], want), "new_file() is told the %s %s, not %s" % (
                        k.replace("_", " "), show(v[k]), show(want)), st2)
                for s2, t in text(e, st, app("strip", x["name"])):
                    is_("field_name", t, s2)
                if ct:
                    is_("content_type", app("strip", x["type"]), st)
                    is_("charset", x["charset"], st)
                    pr.need("described", v["content_type_extra"] is st.ghost["extra"], "new_file() is told other content type parameters", st)
                else:
                    is_("content_type", const(""), st)
                    pr.need("described", v["charset"] is NONE, "new_file() is told the charset %s, the part has none" % show(v["charset"]), st)
                if te:
                    for s2, t in text(e, st, app("strip", x["te"])):
                        is_("transfer_encoding", t, s2)
                else:
                    pr.need("described", v["transfer_encoding"] is NONE, "new_file() is told a transfer encoding, the part has none", st)
                if not cl:
                    pr.need("described", v["content_length"] is NONE, "new_file() is told a length, the part has none", st)
                last = [(s3, t3) for s2, t in text(e, st, x["filename"]) for s3, t3 in ck.ev(e, s2, "t[t.rfind('\\\\') + 1:].strip()", {"t": t})]
                for s2, t in last:
                    is_("file_name", t, s2)
            pr = Protocol(ck, what, 1, signals=(), part=part, claims=False, expect=expect, decoded=lambda pr, st, i, x, node: st.ghost.update(cur=x))
            pr.w.env["enc"] = enc if enc is not None else NONE
            pr.run()
            ck.need("covered", n[0] > 0, what, "new_file() is never called")
    for files in (1, 2):
        for same in (True, False)[:files]:
            what = "%d file%s%s" % (files, "s"[:files - 1], "" if files == 1 else " of one field" if same else " of two fields")
            keyed(ck, what, files, same)


def keyed(ck, what, files, same):
    """FILES after a body of exactly these parts"""
    w = World(ck, None, None, None, handlers=[lambda w, st: st.new(Obj("inst", cls=HAND, lazy=True, attrs={"chunk_size": NONE}), "handler")], keep=False)
    e, st = w.e, w.st
    made = []

    def method(f):
        return lambda eng, st, args, kw, node: f(eng, st, node) if st.get(args[0]) is not None and st.get(args[0]).cls is HAND else None
    def complete(eng, st, node):
        k = int(st.ghost["count"].a[1])
        st.ghost["count"] = const(str(k + 1))
        none = st.fork()
        none.ghost["f%d" % k] = NONE
        f = st.new(Obj("inst", cls=T("ext", "delivered"), lazy=True), ("delivered", k))
        st.ghost["f%d" % k] = f
        return [(none, NONE), (st, f)]
    for m in ("handle_raw_input", "new_file", "receive_data_chunk", "upload_complete"):
        e.ext_contracts["." + m] = method(lambda eng, st, node: [(st, NONE)])
    e.ext_contracts[".file_complete"] = method(complete)
    st.ghost["count"] = const("0")
    names = [const("name%d" % (0 if same else i)) for i in range(files)]

    def parser(eng, st, args, kw, node):
        items = []
        for i in range(files):
            m = file_part(ck, st, name=names[i])[1]
            items.append(("one", T("tup", kind_const(ck, "FILE"), m, st.new(Obj("inst", cls=ITERF, lazy=True, attrs={"ended": FALSE}), ("stream", i)))))
        items.append(("one", T("tup", kind_const(ck, "RAW"), dic(st, "metadata"), st.new(Obj("inst", cls=ITERF, lazy=True, attrs={"ended": FALSE}), "last"))))
        return [(st, st.new(Obj("list", seq=tuple(items)), "parts"))]
    e.contracts[ck.cls(MP + "Parser")] = parser
    n = 0
    for p in w.parse("r = M(m, P, hs, c, enc)\nx = r.parse()\nresult = x[1]"):
        if p.kind == "exc":
            continue
        g = p.st.ghost
        want = {}
        skipped = 0
        for i in range(files):
            f = g.get("f%d" % i)
            if f is None:
                skipped += 1
            elif f is not NONE:
                want.setdefault(names[i].a[1], []).append(f)
        if skipped:
            continue            # the name was empty once stripped: no file
        n += 1
        for k in sorted({x.a[1] for x in names}):
            for q in ck.script(e, p.st, "r = d.getlist(k)\nresult = r", {"d": p.v, "k": const(k)}):
                o = q.st.get(q.v) if q.kind == "ret" else None
                if ck.need("keyed", o is not None and o.seq is not None, what, "FILES cannot be read", q.st):
                    got = [x for _, x in o.seq]
                    ck.need("keyed", len(got) == len(want.get(k, [])) and all(a is b for a, b in zip(got, want.get(k, []))), what,
                            "FILES holds %s under %s, not %s" % ([show(x) for x in got], k, [show(x) for x in want.get(k, [])]), q.st)
        for q in ck.script(e, p.st, "r = len(d)\nresult = r", {"d": p.v}):
            ck.need("keyed", q.kind == "ret" and entails_eq(q.st, lin(q.v), lconst(len(want))), what, "FILES has other keys than the fields", q.st)
    ck.need("covered", n > 0, what, "never returns")


class Closing(Protocol):
    """the files handlers hold open are closed when an upload is skipped or stopped"""

    def __init__(self, ck, what, n, real=None, hasfile=True, **kw):
        self.hasfile, self.real = hasfile, real
        Protocol.__init__(self, ck, what, n, **kw)
        w = self.w
        e, st = w.e, w.st
        w.env["hs"] = st.new(Obj("list", seq=tuple(("one", h) for h in w.h)), "handlers")
        for i in range(n):
            st.ghost["open%d" % i] = FALSE
            if hasfile:
                st.mut(w.h[i]).attrs["file"] = st.new(Obj("inst", cls=T("ext", "hfile"), lazy=True, attrs={"index": const(i)}), ("hfile", i))
            else:
                st.mut(w.h[i]).attrs["file"] = ABSENT
        if real:
            self.returned = S("returned", "str")

            def inner(eng, st, args, kw, node):
                o = st.get(args[0])
                if o is None or o.cls is None or o.cls.k != "ext" or o.cls.a[0] not in MODEL:
                    return None
                st.mut(args[0]).attrs["$closed"] = TRUE
                return [(st, NONE)]

            def quiet(eng, st, args, kw, node):
                o = st.get(args[0])
                if o is None or o.cls is None or o.cls.k != "ext" or o.cls.a[0] not in MODEL:
                    return None
                return [(st, fresh("data", "str"))]
            for x in ("write", "read", "seek", "getvalue"):
                e.ext_contracts["." + x] = quiet
            for x in ("tempfile.NamedTemporaryFile", "tempfile.TemporaryFile"):
                e.ext_contracts[x] = lambda eng, st, args, kw, node: [
                    (st, st.new(Obj("inst", cls=T("ext", "tempfile.file"), lazy=True), ("temp", node)))]
            e.ext_contracts[".close"] = lambda eng, st, args, kw, node: self.close(eng, st, args, kw, node) or inner(eng, st, args, kw, node)
            outs = ck.script(e, st, "h = H()\nresult = h", {"H": T("cls", ck.cls(UP + real))})
            if len(outs) != 1 or outs[0].kind != "ret":
                raise AnalysisBroken("a handler cannot be created")
            w.st, self.h = outs[0].st, outs[0].v
            w.env["hs"] = w.st.new(Obj("list", seq=tuple(("one", h) for h in w.h + [self.h])), "handlers")

            def parser(eng, st, args, kw, node):
                items = []
                for i in range(3):
                    m = file_part(ck, st, name=const("f"), filename=const("name.txt"))[1] if i < 2 else dic(st, "metadata")
                    f = st.new(Obj("list", seq=(("one", S("chunk", "str")),) * (2 if i < 2 else 0)), ("stream", i))
                    items.append(("one", T("tup", kind_const(ck, "FILE" if i < 2 else "RAW"), m, f)))
                return [(st, st.new(Obj("list", seq=tuple(items)), "parts"))]
            e.contracts[ck.cls(MP + "Parser")] = parser
        else:
            e.ext_contracts[".close"] = self.close

    def close(self, eng, st, args, kw, node):
        o = st.get(args[0])
        if o is None or o.cls is None or o.cls.a[0] != "hfile":
            return None
        st.ghost["open%d" % o.attrs["index"].a[1]] = FALSE
        return [(st, NONE)]

    def left(self, st):
        out = [i for i in range(self.n) if self.hasfile and st.ghost["open%d" % i] is not FALSE]
        todo, seen = [self.h] if self.real else [], set()
        while todo:
            o = st.get(todo.pop())
            if o is None or id(o) in seen:
                continue
            seen.add(id(o))
            if o.cls is not None and o.cls.k == "ext" and o.cls.a[0] in MODEL and o.attrs.get("$closed") is not TRUE:
                out.append(o.cls.a[0])
            todo += [v for v in o.attrs.values() if isinstance(v, Term)]
        return out

    def next(self, st):
        if st.ghost["phase"].a[1] == "skipped":
            bad = self.left(st)
            self.need("skipped", not bad, "a file was skipped and the open file of handler %s is not closed" % bad, st)

    def need(self, clause, ok, msg, st):
        return Protocol.need(self, clause, ok, msg, st) if clause in ("skipped", "stopped") else ok

    def new_file(self, eng, st, i, a, kw, node):
        st.ghost["open%d" % i] = TRUE
        return Protocol.new_file(self, eng, st, i, a, kw, node)

    def file_complete(self, eng, st, i, a, kw, node):
        outs = Protocol.file_complete(self, eng, st, i, a, kw, node)
        for s, _ in outs:
            if s.ghost["due"] is FALSE:
                for k in range(self.n):
                    s.ghost["open%d" % k] = FALSE
        return outs

    def run(self):
        ck, ret = self.ck, 0
        for p in self.w.parse():
            g = p.st.ghost
            if p.kind == "exc":
                ck.need("aborts", excname(p.exc) not in ("AttributeError", "NameError", "TypeError"), self.what, "fails with %s" % p.exc, p.st)
                continue
            ret += 1
            if g["halt"].a[1] != "no" or g["phase"].a[1] == "skipped":
                bad = self.left(p.st)
                ck.need("stopped", not bad, self.what, "the upload was skipped or stopped and the open file of handler %s is not closed" % bad, p.st)
        ck.need("covered", ret > 0, self.what, "never returns")


@rule("C22", what="close() of a request whose FILES hold several files under several keys closes each of them; on every path of the loop over "
                  "the parts, with handlers that may skip or stop anywhere, the files handlers opened are closed before the next part or the "
                  "end; closing a temporary upload does not fail when closing its file does.")
def c22(ck):
    from .request import setup, step, REQ
    for n in (1, 2):
        Closing(ck, "%d handlers" % n, n).run()
    Closing(ck, "handlers without a file", 2, hasfile=False).run()
    for k in HANDLERS:
        Closing(ck, k, 1, real=k, signals=("skip", "stop"), claims=False).run()
    closes(ck)


def closes(ck):
    from .request import setup, step
    e, st, r, P, c = setup(ck)
    ghosts = []

    def close(eng, st, args, kw, node):
        o = st.get(args[0])
        if o is None or o.cls is None or o.cls.a[0] != "delivered":
            return None
        st.ghost["closed " + o.attrs["id"].a[1]] = TRUE
        return [(st, NONE)]
    e.ext_contracts[".close"] = close
    q = ck.cls(MP + "MultiPartParser")
    inner = e.contracts[q + ".parse"]
    layout = {"a": ["1", "2", "3"], "b": [], "c": ["4"]}

    def parse(eng, st, args, kw, node):
        out = []
        for s, v in inner(eng, st, args, kw, node):
            o = s.mut(v.a[1])
            o.base, o.x = None, "lists"
            o.ent = {const(k): s.new(Obj("list", seq=tuple(("one", s.new(Obj("inst", cls=T("ext", "delivered"), lazy=True, attrs={"id": const(i)}), ("file", i)))
                                                         for i in ids)), ("files", k)) for k, ids in layout.items()}
            s.ghost["has files"] = TRUE
            for ids in layout.values():
                for i in ids:
                    s.ghost["closed " + i] = FALSE
            out.append((s, v))
        return out
    e.contracts[q + ".parse"] = parse
    st.ghost["has files"] = FALSE
    for s in step(ck, e, [st], r, "r.parse_request_header()"):
        done = 0
        for p in ck.script(e, s, "r.parse_request_body()\nr.close()\nresult = None", {"r": r}):
            if p.kind == "exc":
                ck.need("closes", p.st.ghost["has files"] is FALSE, "HttpRequest.close", "fails with %s" % p.exc, p.st)
                continue
            if p.st.ghost["has files"] is TRUE:
                done += 1
                bad = [i for ids in layout.values() for i in ids if p.st.ghost["closed " + i] is FALSE]
                ck.need("closes", not bad, "HttpRequest.close", "%d files are left open" % len(bad), p.st)
        ck.obl["covered"] += done
    ck.minimum("closes", 1)
    for src in ("r.close()", "r.parse_request_header()\nr.close()"):
        for p in ck.script(e, st, src + "\nresult = None", {"r": r}):
            if p.kind == "exc" and src == "r.close()":
                ck.need("closes", False, "HttpRequest.close", "of a request without files fails with %s" % p.exc, p.st)
    # temporary uploads
    K = T("cls", ck.cls("files.uploadedfile.TemporaryUploadedFile"))
    for x in ("OSError", "IOError", None):
        e = ck.engine()
        st = e.start()
        c = conf(ck, e, st)
        st.ghost["tried"] = FALSE

        def close(eng, st, args, kw, node):
            o = st.get(args[0])
            if o is None or o.cls is None or o.cls.a[0] != "tempfile.file":
                return None
            st.ghost["tried"] = TRUE
            if x:
                eng.throwx(st, x, node)
                return []
            return [(st, NONE)]
        e.ext_contracts[".close"] = close
        e.ext_contracts["tempfile.NamedTemporaryFile"] = lambda eng, st, args, kw, node: [
            (st, st.new(Obj("inst", cls=T("ext", "tempfile.file"), lazy=True), ("temp", node)))]
        for p in ck.script(e, st, "f = K(n, 't', z, 'c', settings=c)\nresult = f", {"K": K, "n": S("name", "str"), "z": S("size", "int"), "c": c}):
            if p.kind != "ret":
                continue
            for q in ck.script(e, p.st, "f.close()\nresult = None", {"f": p.v}):
                ck.need("temporary", q.kind == "ret", "TemporaryUploadedFile.close", "fails with %s when the temporary file's close() raises %s" % (q.exc, x), q.st)
                ck.need("temporary", q.st.ghost["tried"] is TRUE, "TemporaryUploadedFile.close", "does not close the temporary file", q.st)
    ck.minimum("temporary", 3)


@rule("C32", what="Every path of the loop over the chunks of a base64 file part, whatever is read: what is decoded is exactly the white-space-stripped "
                  "bytes read since the last group, a multiple of four characters unless the part ended, and no read asks for more than completes "
                  "the group; each handler gets what was decoded; a failure to decode raises MultiPartParserError; nothing else is ever decoded. "
                  "Every path of a field: a base64 value is decoded, or kept as sent when it cannot be.")
def c32(ck):
    for enc in ("base64", "other", None):
        base64_file(ck, enc)
        base64_field(ck, enc)
    ck.minimum("whole-groups", 1)


def encoding_of(st, enc):
    if enc != "other":
        return enc and const(enc)
    x = S("transfer encoding", "str")
    return x


def decoder(ck, w, on_decode, enc):
    """every function that decodes base64"""
    def dec(eng, st, args, kw, node):
        on_decode(st, args[0], node)
        for x in ("TypeError", "binascii.Error"):
            s = st.fork()
            s.ghost["undecodable"] = TRUE
            eng.throwx(s, x, node)
        y = fresh("decoded", "str")
        st.ghost["decoded"] = y
        return [(st, y)]
    for n in ("base64.b64decode", "base64.standard_b64decode", "base64.decodestring", "base64.urlsafe_b64decode", "binascii.a2b_base64"):
        w.e.ext_contracts[n] = dec


def base64_file(ck, enc):
    what = "a file part with %s transfer encoding" % {"base64": "base64", "other": "another", None: "no"}[enc]
    te = encoding_of(None, enc)

    def part(st):
        s = st.fork()
        k, d, _ = file_part(ck, s, te)
        return [(s, k, d, {})]

    def took(st, x):
        st.ghost["G:group"] = mkcat(st.ghost["G:group"], app("nows", x))

    def chunk(st, f, x, node):
        if enc != "base64":
            st.ghost["sent"] = x
            return
        w.need("nothing-lost", w.e.norm_eq(st, st.ghost["G:group"], const("")), what, "%s was read and neither decoded nor refused" % show(st.ghost["G:group"]), st)
        took(st, x)

    def is64(st):
        return enc == "base64" or enc == "other" and st.facts.get(app("eq", app("strip", te), const("base64"))) is True

    def decode(st, x, node):
        if not is64(st):
            w.need("not-decoded", False, what, "data is decoded", st)
            return
        if enc == "other":
            return
        g = st.ghost["G:group"]
        w.need("nothing-lost", w.e.norm_eq(st, x, g), what, "%s is decoded, not the stripped bytes of the group, %s" % (show(x), show(g)), st)
        ok = st.ghost["end"] is TRUE or any(entails_eq(st, lin(app("mod", mkint(y), const(4))), {}) for z in (x, g) for y in (lenof(z), ladd({}, lenof(z), -1))) or lenof(x) == {}
        w.need("whole-groups", ok, what, "%s is decoded, which may not be whole groups of four" % show(x), st)
        st.ghost["G:group"] = const("")
    def receive(eng, st, args, kw, node):
        o = st.get(args[0])
        if o is None or o.cls is not HAND:
            return None
        x = args[1] if len(args) > 1 else kw["raw_data"]
        if enc == "base64":
            w.need("decoded", x is st.ghost["decoded"], what, "a handler receives %s, not what was decoded" % show(x), st)
        elif enc is None or not is64(st) and st.facts.get(app("eq", app("strip", te), const("base64"))) is False:
            w.need("not-decoded", x is st.ghost["sent"], what, "a handler receives %s, not the chunk" % show(x), st)
        return [(st, NONE)]
    w = World(ck, part, None, None, handlers=[lambda w, st: st.new(Obj("inst", cls=HAND, lazy=True, attrs={"chunk_size": NONE}), "handler")],
              watch={"chunk": chunk}, keep=False)
    e = w.e
    e.maxparts = 60
    decoder(ck, w, decode, enc)
    e.ext_contracts[".receive_data_chunk"] = receive
    for m in ("handle_raw_input", "new_file", "upload_complete", "file_complete"):
        e.ext_contracts["." + m] = lambda eng, st, args, kw, node: [(st, NONE)] if st.get(args[0]) is not None and st.get(args[0]).cls is HAND else None

    def read(eng, st, args, kw, node):
        o = st.get(args[0])
        if o is None or o.cls is not ITERF:
            return None
        n = args[1] if len(args) > 1 else kw.get("size", NONE)
        g = mkint(lenof(st.ghost["G:group"]))
        m = app("mod", g, const(4))
        if enc == "base64":
            add_lin(st, ladd(lconst(3), lin(m), -1))
            add_lin(st, lin(m))
            less = app("mod", mkint(ladd({}, lin(g), -1)), const(4))      # -x % 4 is 4 - x % 4 unless that is 4
            if entails(st, ladd(lin(less), lconst(-1))):
                add_lin(st, ladd(lconst(4), ladd(lin(m), lin(less)), -1))
                add_lin(st, ladd(ladd(lin(m), lin(less)), lconst(-4)))
            w.need("no-more", n is not NONE and entails(st, ladd(ladd(lconst(4), lin(m), -1), lin(n), -1)), what,
                   "%s more bytes are read, which may be more than complete the group" % show(n), st)
        end = st.fork()
        if n is not NONE and entails(st, ladd(lin(n), lconst(-1))):
            end.ghost["end"] = TRUE
        end.mut(args[0]).attrs["ended"] = TRUE
        x = fresh("more", "str")
        add_lin(st, ladd(lenof(x), lconst(-1)))
        if n is not NONE:
            add_lin(st, ladd(lin(n), lenof(x), -1))
        took(st, x)
        return [(end, const("")), (st, x)]
    e.ext_contracts[".read"] = read
    w.st.ghost.update({"G:group": const(""), "end": FALSE, "undecodable": FALSE, "decoded": NONE, "sent": NONE})
    inner = w.part

    def part2(st):
        out = inner(st)
        for s, *_ in out:
            s.ghost.update({"G:group": const(""), "end": FALSE, "decoded": NONE, "sent": NONE})
        return out
    w.part = part2
    n = 0
    for p in w.parse():
        if p.kind == "ret":
            n += 1
            ck.need("refused", p.st.ghost["undecodable"] is FALSE, what, "returns although data could not be decoded", p.st)
        elif p.st.ghost["undecodable"] is TRUE:
            ck.need("refused", excname(p.exc).endswith("MultiPartParserError"), what, "data that cannot be decoded raises %s" % p.exc, p.st)
    ck.need("covered", n > 0, what, "never returns")


def base64_field(ck, enc):
    what = "a field with %s transfer encoding" % {"base64": "base64", "other": "another", None: "no"}[enc]
    te = encoding_of(None, enc)
    w = World(ck, None, None, None, keep=True)
    e = w.e
    dec = []

    def is64(st):
        return enc == "base64" or enc == "other" and st.facts.get(app("eq", app("strip", te), const("base64"))) is True

    def decode(st, x, node):
        w.need("not-decoded", is64(st), what, "its value is decoded", st)
        w.need("field", x is st.ghost["value"], what, "%s is decoded, not the value sent" % show(x), st)
    decoder(ck, w, decode, enc)
    v = S("value", "str")
    w.st.ghost.update({"undecodable": FALSE, "decoded": NONE, "value": v})

    def read(eng, st, args, kw, node):
        o = st.get(args[0])
        return [(st, v)] if o is not None and o.cls is ITERF else None
    e.ext_contracts[".read"] = read

    def parser(eng, st, args, kw, node):
        items = []
        for i in range(2):
            m = field_part(ck, st, te, const("name"))[1] if not i else dic(st, "metadata")
            items.append(("one", T("tup", kind_const(ck, "RAW" if i else "FIELD"), m, st.new(Obj("inst", cls=ITERF, lazy=True, attrs={"ended": FALSE}), ("stream", i)))))
        return [(st, st.new(Obj("list", seq=tuple(items)), "parts"))]
    e.contracts[ck.cls(MP + "Parser")] = parser
    F = ck.fn("utils.encoding.force_text")
    n = 0
    for p in w.parse("r = M(m, P, hs, c, enc)\nx = r.parse()\ny = x[0].getlist('name')\nresult = y[0]['data']"):
        if p.kind == "exc":
            ck.need("field", p.st.ghost["undecodable"] is FALSE, what, "a value that cannot be decoded raises %s" % p.exc, p.st)
            continue
        n += 1
        g = p.st.ghost
        want = v if not is64(p.st) or g["undecodable"] is TRUE else g["decoded"]
        if enc == "other" and not is64(p.st) and p.st.facts.get(app("eq", app("strip", te), const("base64"))) is not False:
            continue
        if not ck.need("field", want is not NONE, what, "its value is not decoded", p.st):
            continue
        for s, t in ck.ev(e, p.st, "f(x, enc, errors='replace')", {"f": F, "x": want, "enc": const("utf-8")}):
            ck.need("field", p.v is t or e.norm_eq(s, p.v, t), what, "is kept as %s, not %s" % (show(p.v), show(t)), s)
    ck.need("covered", n > 0, what, "never returns")
