"""C04, C18, C20, C22: uploaded files and the handlers that build them."""
from harness import *
from .request import conf

UF = "files.uploadedfile."


def file_object(st, **attrs):
    return st.new(Obj("inst", cls=T("ext", "file"), lazy=True, attrs=dict(attrs)), "file")


def subclasses(ck, base):
    q = ck.cls(base)
    e = ck.engine()
    return sorted(c for c in ck.prog.classes if isinstance(c, str) and ".tests" not in c and c != q and q in mro(e, c))


def mro(e, c):
    return [getattr(t, "qual", t) for t in e.mro(c)]


@rule("C18", what="Every path of constructing each kind of uploaded file and of setting its name afterwards, for any name: what the name "
                  "attribute then gives has no '/', is not '.' or '..', is at most 255 characters and ends with the extension of the "
                  "last path component when that was longer.")
def c18(ck):
    N = "files.uploadedfile."
    ctors = {"UploadedFile": ["K(f, n)", "K(f, name=n, size=z)", "K(f)", "K()"],
             "TemporaryUploadedFile": ["K(n, 't', z, 'c', settings=c)", "K(n, 't', z, 'c')"],
             "InMemoryUploadedFile": ["K(f, 'field', n, 't', z, 'c')", "K(file=f, field_name='x', name=n, content_type=None, size=z, charset=None)"],
             "SimpleUploadedFile": ["K(n, b)", "K.from_dict({'filename': n, 'content': b})"]}
    for kind, cs in sorted(ctors.items()):
        for src in cs:
            for how in ("", "; f.name = m", "; f.name = m; f.name = n"):
                if how and src not in (cs[0],):
                    continue
                e = ck.engine(keep=True)
                st = e.start()
                n, m, b = S("name", "text"), S("other", "text"), S("content", "str")
                fn = S("name of the file", "text")
                env = {"K": T("cls", ck.cls(N + kind)), "f": file_object(st, name=fn), "n": n, "m": m, "b": b, "z": S("size", "int"), "c": conf(ck, e, st)}
                env["os"] = T("ext", "os")
                what = kind + " " + src.replace("K", kind, 1) + how
                for p in ck.script(e, st, "f = %s%s\nx = f.name\nresult = x" % (src, "".join("\n" + y.strip() for y in how.split(";"))), env):
                    if p.kind == "exc":
                        continue
                    x = p.v
                    if x is NONE:
                        ck.need("none", "n" not in src.split("(", 1)[1] or how == "" and False, what, "a given name is dropped", p.st)
                        continue
                    given = m if how.endswith("m") else n if how or "n" in src.split("(", 1)[1] else fn
                    v = {"x": x, "g": given, "os": T("ext", "os")}
                    ck.need("no-slash", ck.holds(e, p.st, "'/' not in x", v), what, "the name %s may contain '/'" % show(x), p.st)
                    big = entails(p.st, ladd(lenof(x), lconst(-3)))
                    for d in (".", ".."):
                        ck.need("no-directory", big or ck.holds(e, p.st, "x != %r" % d, v), what, "the name %s may be '%s'" % (show(x), d), p.st)
                    ck.need("length", entails(p.st, ladd(lconst(255), lenof(x), -1)), what, "the name %s may be longer than 255" % show(x), p.st)
                    for s, base in ck.ev(e, p.st, "os.path.basename(g)", v):
                        v2 = dict(v, b=base)
                        for s2 in ck.split(e, s, "len(b) <= 255 or len(os.path.splitext(b)[1]) > 255", v2)[1]:
                            kept = all(e.cut_suffix(s3, x, t) is not None or e.norm_eq(s3, x, base) for s3, t in ck.ev(e, s2, "os.path.splitext(b)[1]", v2))
                            ck.need("extension", kept, what, "the shortened name %s loses its extension" % show(x), s2)
    ck.minimum("no-slash", 10)
    ck.minimum("extension", 10)


# -- files as contents and a position
FILES = ("io.BytesIO", "tempfile.file", "file")


def file_model(ck, e, on_write=None):
    """reading and writing the files the library creates, in place of the interpreter's library"""
    def mine(st, args):
        o = st.get(args[0]) if args else None
        return o if o is not None and o.cls is not None and o.cls.k == "ext" and o.cls.a[0] in FILES else None

    def get(o):
        return o.attrs.get("$data", const("")), o.attrs.get("$pos", ZERO)

    def method(f):
        def run(eng, st, args, kw, node):
            o = mine(st, args)
            if o is None:
                return None
            if o.attrs.get("$closed") is TRUE and f not in (close,):
                eng.throwx(st.fork(), "ValueError", node)
                return []
            d, p = get(o)
            return f(eng, st, args[0], d, p, args[1:], kw, node)
        return run

    def put(st, r, d=None, p=None):
        o = st.mut(r)
        if d is not None:
            o.attrs["$data"] = d
        if p is not None:
            o.attrs["$pos"] = p

    def write(eng, st, r, d, p, a, kw, node):
        b = a[0]
        end = ladd(lin(p), lenof(b))
        if entails(st, ladd(lin(p), lenof(d), -1)):
            n = mkcat(d, b)
        else:
            n = mkcat(mkslice(d, NONE, p), b, mkslice(d, mkint(end), NONE))
        put(st, r, n, mkint(end))
        if on_write:
            on_write(st, r, n, node)
        return [(st, NONE)]

    def rest(st, d, p):
        if p is ZERO or entails(st, lscale(lin(p), -1)):
            return d
        if entails(st, ladd(lin(p), lenof(d), -1)):
            return const("")
        return mkslice(d, p, NONE)

    def read(eng, st, r, d, p, a, kw, node):
        n = a[0] if a else kw.get("size", NONE)
        x = rest(st, d, p)
        if n is NONE or n.k == "c" and isinstance(n.a[1], int) and n.a[1] < 0:
            put(st, r, None, mkint(ladd(lin(p), lenof(x))))
            return [(st, x)]
        x = mkslice(x, NONE, n)
        put(st, r, None, mkint(ladd(lin(p), lenof(x))))
        return [(st, x)]

    def seek(eng, st, r, d, p, a, kw, node):
        whence = a[1] if len(a) > 1 else ZERO
        if whence.k == "c" and whence.a[1] in (0, 1, 2):
            put(st, r, None, mkint(ladd(lin(a[0]), {0: lconst(0), 1: lin(p), 2: lenof(d)}[whence.a[1]])))
        else:
            put(st, r, None, fresh("position", "int"))
        return [(st, NONE)]

    def tell(eng, st, r, d, p, a, kw, node):
        return [(st, p)]

    def close(eng, st, r, d, p, a, kw, node):
        st.mut(r).attrs["$closed"] = TRUE
        return [(st, NONE)]

    def getvalue(eng, st, r, d, p, a, kw, node):
        return [(st, d)]

    def flush(eng, st, r, d, p, a, kw, node):
        return [(st, NONE)]

    def truncate(eng, st, r, d, p, a, kw, node):
        put(st, r, mkslice(d, NONE, a[0] if a else p))
        return [(st, NONE)]

    def writelines(eng, st, r, d, p, a, kw, node):
        xs = eng.exact_items(st, a[0])
        x = mkcat(*xs) if xs is not None else (flat(st.get(a[0]).seq) if st.get(a[0]) is not None and st.get(a[0]).seq is not None else fresh("lines", "str"))
        return write(eng, st, r, d, p, [x], {}, node)
    for n, f in (("write", write), ("read", read), ("seek", seek), ("tell", tell), ("close", close), ("getvalue", getvalue), ("flush", flush),
                 ("truncate", truncate), ("writelines", writelines)):
        e.ext_contracts["." + n] = method(f)


HANDLERS = ("ConvenientFileUploadHandler", "MemoryFileUploadHandler", "TemporaryFileUploadHandler")
PART = ("field_name", "file_name", "content_type", "content_length", "charset", "content_type_extra", "transfer_encoding")


def uploads(ck, kind, limits, about):
    """the states of an upload handler after any number of files and chunks: (engine, [(state, handler, settings, sent)])"""
    e = ck.engine(keep=True)
    final = []

    def on_write(st, r, d, node):
        if final and limits and st.get(r).cls.a[0] == "io.BytesIO" and kind.startswith("Conv"):
            mx = st.get(final[0]).attrs["FILE_UPLOAD_MAX_MEMORY_SIZE"]
            ck.need("memory", entails(st, ladd(lin(mx), lenof(d), -1)), kind, "more bytes than the limit are held in memory", st)
    file_model(ck, e, on_write)

    def temp(eng, st, args, kw, node):
        n = st.ghost["temps"].a[1] + 1
        st.ghost["temps"] = const(min(n, 3))
        return [(st, st.new(Obj("inst", cls=T("ext", "tempfile.file"), lazy=True, attrs={"$data": const(""), "$pos": ZERO}), ("temp", node)))]
    for n in ("tempfile.NamedTemporaryFile", "tempfile.TemporaryFile"):
        e.ext_contracts[n] = temp
    st = e.start()
    st.ghost["G:sent"] = const("")
    st.ghost["temps"] = ZERO
    c = conf(ck, e, st)
    cl = S("content_length", "int")
    add_lin(st, lin(cl))
    nm = S("file_name", "unicode")
    add_lin(st, ladd(lenof(nm), lconst(-1)))
    vals = {"field_name": S("field_name", "unicode"), "file_name": nm, "content_type": S("content_type", "str"),
            "content_length": S("part_length"), "charset": S("charset"), "content_type_extra": S("content_type_extra"),
            "transfer_encoding": S("transfer_encoding")}
    U = "files.uploadhandler."
    env = dict(vals, H=T("cls", ck.cls(U + kind)), c=c, cl=cl, Stop=T("cls", ck.cls(U + "StopFutureHandlers")), I=S("input"), M=S("META"),
               b=S("boundary", "str"), enc=S("encoding", "str", ("charset",)))
    about["env"] = env
    new = "try:\n    h.new_file(%s)\n    t = False\nexcept Stop:\n    t = True\n" % ", ".join(PART)
    env.update({"n_" + k: S("second " + k, typeof(st, v)) for k, v in vals.items()})
    add_lin(st, ladd(lenof(env["n_file_name"]), lconst(-1)))
    def plain(s, x):
        """an ordinary file name; C18 is about the others"""
        for op in ("find", "rfind"):
            add_lin(s, ladd(lconst(-1), {app(op, x, const("/")): 1}, -1))
        for d in (".", ".."):
            s.facts[app("eq", x, const(d))] = False
        add_lin(s, ladd(lconst(255), lenof(x), -1))
        add_lin(s, ladd(lenof(x), lconst(-1)))
    if not limits:
        plain(st, nm)
        plain(st, env["n_file_name"])

    def described(s, p=""):
        for k in PART:
            s.ghost["p:" + k] = env[p + k]
    new2 = new.replace("(%s)" % ", ".join(PART), "(%s)" % ", ".join("n_" + k for k in PART))
    start = "h = H()\nh.handle_raw_input(I, M, cl, b, c, enc)\n"
    states = []
    for p in ck.script(e, st, start + new + "result = (h, t)", env):
        if ck.need("starts", p.kind == "ret", kind, "new_file() raises %s" % p.exc, p.st):
            p.st.ghost["claimed"] = p.v.a[1]
            described(p.st)
            states.append((p.st, p.v.a[0]))
    if not states:
        raise AnalysisBroken("no state of %s" % kind)
    h = states[0][1]
    if any(x is not h for _, x in states):
        raise AnalysisBroken("several handlers")
    from history import History
    H = History(e, st, [h], seqs=("G:sent",), anys=["p:" + k for k in PART])
    if not limits:
        H.extra = lambda s: plain(s, s.ghost["p:file_name"])

    def step(s, say=False):
        out = []
        s = s.fork()
        chunk = S("chunk", "str")
        sent = s.ghost["G:sent"]
        env2 = dict(env, h=h, x=chunk, n=mkint(lenof(sent)))
        for p in ck.script(e, s, "y = h.receive_data_chunk(x, n)\nresult = y", env2):
            if p.kind == "exc":
                if say:
                    about["chunk-exc"](p)
                continue
            p.st.ghost["G:sent"] = mkcat(sent, chunk)
            if say:
                about["chunk"](p, h, c, chunk)
            out.append(p.st)
        s = s.fork()
        s.ghost["temps"] = ZERO
        for p in ck.script(e, s, "f = h.file_complete(n)\n" + new2 + "result = t", env2):
            if p.kind == "ret":
                p.st.ghost["G:sent"] = const("")
                p.st.ghost["claimed"] = p.v
                described(p.st, "n_")
                out.append(p.st)
        return out
    gen = H.run([s for s, _ in states], step, [st.get(c).attrs["FILE_UPLOAD_MAX_MEMORY_SIZE"]])
    final.append(c)
    for s in gen:
        step(s, True)
        about["state"](s, h, c)
        sent = s.ghost["G:sent"]
        env2 = dict(env, h=h, n=mkint(lenof(sent)))
        for p in ck.script(e, s, "f = h.file_complete(n)\nresult = f", env2):
            about["done"](e, p, h, c, sent, env2)
    return len(gen)


@rule("C04", what="An inductive invariant, found by guess and check, of each upload handler after any number of files and chunks: while the bytes are "
                  "in memory they are within the limit, and what file_complete() delivers holds exactly the chunks received, in order; at most "
                  "one temporary file per upload; the in-memory handler claims exactly the announced lengths within the limit.",
      assumes=["temporary files and BytesIO store what is written to them"])
def c04(ck):
    for kind in HANDLERS:
        def chunk_exc(p):
            ck.need("chunk", False, kind, "receive_data_chunk() raises %s" % p.exc, p.st)

        def chunk(p, h, c, x):
            if kind == "MemoryFileUploadHandler":
                ck.need("passes-on", p.v is (NONE if p.st.ghost["claimed"] is TRUE else x), kind,
                        "a chunk is %s" % ("passed on although the file was claimed" if p.v is not NONE else "not passed on unchanged"), p.st)

        def state(s, h, c):
            ck.need("moved-once", s.ghost["temps"].a[1] <= 1, kind, "a file is moved to a temporary file more than once", s)
            if kind == "MemoryFileUploadHandler":
                mx, cl = s.get(c).attrs["FILE_UPLOAD_MAX_MEMORY_SIZE"], about["env"]["cl"]
                if s.ghost["claimed"] is TRUE:
                    ck.need("claims", entails(s, ladd(lin(mx), lin(cl), -1)), kind, "claims a file although the announced length may exceed the limit", s)
                else:
                    ck.need("claims", entails(s, ladd(ladd(lin(cl), lin(mx), -1), lconst(-1))), kind,
                            "does not claim a file although the announced length is within the limit", s)

        def done(e, p, h, c, sent, env):
            if not ck.need("delivers", p.kind == "ret", kind, "file_complete() raises %s" % p.exc, p.st):
                return
            if kind == "MemoryFileUploadHandler" and p.st.ghost["claimed"] is not TRUE:
                ck.need("delivers", p.v is NONE, kind, "delivers a file it did not claim", p.st)
                return
            if not ck.need("delivers", p.st.get(p.v) is not None, kind, "delivers no file", p.st):
                return
            mx = p.st.get(c).attrs["FILE_UPLOAD_MAX_MEMORY_SIZE"]
            for q in ck.script(e, p.st, "f.seek(0)\nx = f.read()\nresult = x", {"f": p.v}):
                if ck.need("content", q.kind == "ret", kind, "the delivered file cannot be read: %s" % q.exc, q.st):
                    ck.need("content", e.norm_eq(q.st, q.v, sent), kind, "the delivered file holds %s, not the chunks received" % show(q.v), q.st)
            if kind == "ConvenientFileUploadHandler":
                inner = [v for s2, v in ck.ev(e, p.st, "f.file", {"f": p.v})]
                if any(p.st.get(v) is not None and p.st.get(v).cls.a[0] == "io.BytesIO" for v in inner):
                    ck.need("memory", entails(p.st, ladd(lin(mx), lenof(sent), -1)), kind, "a file beyond the limit is delivered in memory", p.st)
        about = {"chunk": chunk, "chunk-exc": chunk_exc, "state": state, "done": done}
        n = uploads(ck, kind, True, about)
        ck.need("covered", n >= 1, kind, "no state")
    ck.minimum("content", 3)


def delivered(ck):
    """what each handler delivers is rewound, sized and described as the part was"""
    for kind in HANDLERS:
        def nothing(*a):
            pass

        def done(e, p, h, c, sent, env):
            if p.kind != "ret" or p.st.get(p.v) is None:
                return
            g = p.st.ghost
            for q in ck.script(e, p.st, "r = (f.tell(), f.size, f.content_type, f.charset, f.content_type_extra, f.transfer_encoding)\nresult = r", {"f": p.v}):
                if not ck.need("described", q.kind == "ret", kind, "the delivered file cannot be described: %s" % q.exc, q.st):
                    continue
                pos, size = q.v.a[0], q.v.a[1]
                ck.need("rewound", entails_eq(q.st, lin(pos), {}), kind, "the delivered file is at position %s" % show(pos), q.st)
                ck.need("sized", entails_eq(q.st, lin(size), lenof(sent)), kind, "the size is %s, not the number of bytes received" % show(size), q.st)
                for k, v in zip(("content_type", "charset", "content_type_extra", "transfer_encoding"), q.v.a[2:]):
                    ck.need("described", v is g["p:" + k], kind, "%s is %s, not that of the part" % (k, show(v)), q.st)
            for q in ck.script(e, p.st, "r = f.name\nresult = r", {"f": p.v}):
                if ck.need("described", q.kind == "ret", kind, "the delivered file has no name", q.st):
                    ck.need("described", e.norm_eq(q.st, q.v, g["p:file_name"]), kind, "the name is %s, not that of the part" % show(q.v), q.st)
        ck.need("covered", uploads(ck, kind, False, {"chunk": nothing, "chunk-exc": nothing, "state": nothing, "done": done}) >= 1, kind, "no state")


