"""C05: every loop that parsing goes through ends."""
from harness import *
from engine import Engine
from .streams import source
from .parts import World, file_part, field_part, add, kind_const, dic, ITERF
from .split import feed, boundaries, afresh, MP

DS = "utils.datastructures."
HANDLER = T("ext", "handler")


def val(st, v):
    """the number a value is measured by"""
    if not isinstance(v, Term) or v is ABSENT or v is NONE:
        return None
    t = typeof(st, v)
    if t == "int":
        return lin(v)
    if isstr(st, v) or t in ("str", "unicode", "bytes"):
        return lenof(v)
    return None


class Progress(Rule):
    """every turn of a loop makes progress: input is used up, or a bounded quantity moves towards its bound"""
    def __init__(self, ck, what, input=(), rest=(), count=()):
        self.ck, self.what = ck, what
        self.input, self.rest, self.count = input, rest, count     # ghosts: what was taken, what is given back, numbers that only grow with input
        self.seen = collections.Counter()

    def quantities(self, eng, st):
        """{name: (term, what of it counts)}"""
        out = {}
        if eng.cx is not None:
            fids = [eng.cx.fid] + list(eng.cx.parents)
            for fid in fids:
                for n, v in st.frames.get(fid, {}).items():
                    out[("local", n)] = v
        for k, o in st.heap.items():
            if o.kind in ("inst",):
                for n, v in o.attrs.items():
                    out[("attr", k, n)] = v
        return out

    def taken(self, st):
        """how much input is used up"""
        m = {}
        for g in self.input:
            v = st.ghost.get(g)
            if v is not None:
                m = ladd(m, lenof(v))
        for g in self.count:
            v = st.ghost.get(g)
            if v is not None:
                m = ladd(m, lin(v))
        for g in self.rest:
            v = st.ghost.get(g)
            if v is not None:
                m = ladd(m, lenof(v), -1)
        return m

    def loop_back(self, eng, head, back, node):
        if isinstance(node, ast.For) or not isinstance(node, ast.While):
            if id(node) not in eng.custom:
                return
        con = where(eng)
        self.seen[con] += 1
        r = self.progress(eng, head, back)
        if r is True:
            self.ck.need("every turn makes progress", True, con, "")
        elif r is None:
            self.ck.incomplete.append("%s: no measure found for the loop %s of %s" % (self.what, head_text(node), con))
        else:
            self.ck.need("every turn makes progress", False, con, "%s: the loop '%s' can go round again %s" % (self.what, head_text(node), r), back)

    def progress(self, eng, head, back):
        a, b = self.taken(head), self.taken(back)
        moved = ladd(b, a, -1)
        if entails(back, ladd(moved, lconst(-1))):
            return True
        H, B = self.quantities(eng, head), self.quantities(eng, back)
        used = entails(back, moved)
        nums = []
        for k, v in H.items():
            x = val(head, v)
            w = B.get(k)
            y = val(back, w) if isinstance(w, Term) else None
            if x is not None and y is not None:
                nums.append((k, x, y))
        for k, x, y in nums:
            d = ladd(x, y, -1)
            if k[0] == "attr" and k[2] == "position" and entails(back, ladd(lscale(d, -1), lconst(-1))):
                return True
            if entails(back, ladd(d, lconst(-1))) and any(entails(back, ladd(x, lconst(-c))) for c in (0, 1, -1)):
                return True
        for k, x, y in nums:
            w = B.get(k)
            if isinstance(w, Term) and w.k == "app" and w.a[0] == "find" and len(w.a) > 3 and typeof(back, w.a[3]) == "int" and entails(back, x) and \
                    entails(back, ladd(ladd(lin(w.a[3]), x, -1), lconst(-1))):
                return True         # found further on, or not at all - and then the loop is left, since it is only gone round from a place that was found
        for i, (k, x, y) in enumerate(nums):
            for j, (k2, x2, y2) in enumerate(nums):
                if i != j and entails(back, ladd(ladd(ladd(x, x2, -1), ladd(y, y2, -1), -1), lconst(-1))) and \
                        any(entails(back, ladd(ladd(x, x2, -1), lconst(-c))) for c in (0, -1)):
                    return True
        same = all(v is B.get(k) or isinstance(B.get(k), Term) and isinstance(v, Term) and self.equal(eng, back, v, B[k])
                   for k, v in H.items() if k[0] == "attr" or not str(k[1]).startswith("$"))
        if used and entails(back, lscale(moved, -1)) and back.ghost.get("eof") is TRUE and back.ghost.get("asked") is not None and \
                not entails(back, ladd(lin(back.ghost["asked"]), lin(head.ghost["asked"]), -1) if False else lconst(-1)) and \
                entails(back, ladd(ladd(lin(back.ghost["asked"]), lin(head.ghost["asked"]), -1), lconst(-1))):
            return "although there is nothing left to read"
        if same and used and entails(back, lscale(moved, -1)):
            return "with nothing changed"
        for k, v in H.items():
            w = B.get(k)
            if isinstance(w, Term) and w.k == "app" and w.a[0] in ("find", "rfind", "index") and len(w.a) > 3 and w.a[3] is v and k[0] == "local":
                rest = [k2 for k2, v2 in H.items() if k2 != k and B.get(k2) is not v2 and k2[0] == "local"]
                if not rest:
                    return "from the same place (%s is sought from where it was found)" % k[1]
        return None

    def equal(self, eng, st, v, w):
        x, y = val(st, v), val(st, w)
        if typeof(st, v) == "int" and typeof(st, w) == "int":
            return entails_eq(st, x, y)
        if x is not None and y is not None:
            return eng.norm_eq(st, v, w)
        return False


def where(eng):
    q = eng.cx.fi.qual if eng.cx is not None and eng.cx.fi is not None else "?"
    return q[len(PKG) + 1:] if str(q).startswith(PKG) else str(q)


def head_text(node):
    if isinstance(node, ast.While):
        return "while " + ast.unparse(node.test)
    if isinstance(node, ast.For):
        return "for %s in %s" % (ast.unparse(node.target), ast.unparse(node.iter))
    return ast.unparse(node)


def attach(e, rule):
    e.rule = rule
    return rule


def requests(ck):
    from .request import setup
    for src in ("r.parse_request_header()", "r.body()", "r.read()", "r.readline()", "r.readlines()", "list(r)", "list(r.xreadlines())"):
        e, st, r, P, c = setup(ck)
        rule = attach(e, Progress(ck, "HttpRequest." + src[2:].split("(")[0], input=("G:taken",)))
        st.ghost["asked"] = ZERO
        run(ck, e, st, src, {"r": r, "list": T("ext", "list")})
        ck.obl["scenarios"] += 1


def run(ck, e, st, src, env):
    e.steps = 0
    try:
        return ck.script(e, st, src, env)
    except engmod.Budget as b:
        ck.incomplete.append("%s: %s" % (src.replace("\n", "; "), b))
        return []


def headers(ck):
    """the loops over header text"""
    for f, ty in (("http.request.parse_request_headers", "str"), ("http.multipartparser.parse_header", "str"), ("http.multipartparser._parse_header_params", "str")):
        try:
            fn = ck.fn(f)
        except AnalysisBroken:
            continue
        e = ck.engine()
        attach(e, Progress(ck, f.rsplit(".", 1)[1]))
        st = e.start()
        run(ck, e, st, "result = f(x)", {"f": fn, "x": S("text", ty)})
        ck.obl["scenarios"] += 1


def pulled(e, st, P):
    """count what is taken out of the source"""
    inner = e.ext_contracts[".next"]
    st.ghost["pulls"] = ZERO

    def nxt(eng, s, args, kw, node):
        out = inner(eng, s, args, kw, node)
        for s2, v in out or ():
            add(s2, "pulls", lconst(1))
        return out
    e.ext_contracts[".next"] = nxt


STREAM_OPS = ("s.read()", "s.read(n)", "s.readline()", "s.readline(n)", "b''.join(s)", "ex(s)", "list(s)")


def streams(ck):
    for src in STREAM_OPS:
        e = ck.engine(keep=True)
        e.cap = 2000
        st = e.start()
        P = source(e, st)
        n, a = S("n", "int"), S("buffered", "str")
        pulled(e, st, P)
        attach(e, Progress(ck, "LazyStream: " + src, count=("pulls",)))
        env = {"C": T("cls", ck.cls(DS + "LazyStream")), "P": P, "a": a, "n": n, "ex": ck.fn(MP + "exhaust"), "list": T("ext", "list")}
        add_lin(st, lin(n))
        run(ck, e, st, "s = C(P)\ns.unget(a)\nresult = " + src, env)
        ck.obl["scenarios"] += 1


def opened(st, e, broken=False):
    """a file object: reads give bytes until the end is reached, nothing from then on"""
    f = st.new(Obj("inst", cls=T("ext", "opened"), lazy=True), "file")
    st.ghost.update({"taken": ZERO, "asked": ZERO, "eof": FALSE})

    def read(eng, s, args, kw, node):
        if args[0] is not f:
            return None
        add(s, "asked", lconst(1))
        n = args[1] if len(args) > 1 else NONE
        end = s.fork()
        end.ghost["eof"] = TRUE
        out = [(end, const(""))]
        if s.ghost.get("eof") is not TRUE:
            x = fresh("data", "str")
            add_lin(s, ladd(lenof(x), lconst(-1)))
            if typeof(s, n) == "int":
                add_lin(s, ladd(lin(n), lenof(x), -1))
            add(s, "taken", lenof(x))
            if not contradictory(s, []):
                out.append((s, x))
        return out
    e.ext_contracts[".read"] = read
    e.ext_contracts[".seek"] = lambda eng, s, args, kw, node: [(s, NONE)] if args[0] is f else None
    return f


def files(ck):
    for src, cls in (("list(F(f, 'n').chunks())", "files.base.File"), ("list(F(f, 'n').chunks(n))", "files.base.File"), ("list(F(f, 'n'))", "files.base.File"),
                     ("list(F(f))", DS + "ChunkIter"), ("list(F(f, n))", DS + "ChunkIter"), ("ex(f)", None)):
        e = ck.engine(keep=True)
        e.cap = 2000
        st = e.start()
        f = opened(st, e)
        n = S("n", "int")
        add_lin(st, ladd(lin(n), lconst(-1)))
        attach(e, Progress(ck, src.replace("F", cls.rsplit(".", 1)[1]) if cls else src, count=("taken",)))
        if cls is None:
            e.contracts["iter"] = None
            e.contracts.pop("iter")
        run(ck, e, st, "result = " + src, {"F": T("cls", ck.cls(cls)) if cls else NONE, "f": f, "n": n, "ex": ck.fn(MP + "exhaust"), "list": T("ext", "list")})
        ck.obl["scenarios"] += 1


def multipart(ck):
    """the loops over the parts and over the chunks of a part; that a part that is over took something is decided below"""
    for name, enc in (("file", "base64"), ("file", None), ("field", "base64"), ("field", None), ("raw", None)):
        multipart_with(ck, name, enc)


def multipart_with(ck, name, enc):
    what = "a multipart body with %s%s parts" % ("base64 " if enc else "", name)
    te = enc and const(enc)

    def part(st):
        s = st.fork()
        add(s, "taken", lconst(1))
        s.ghost["eof"] = FALSE
        k, d = (kind_const(ck, "RAW"), dic(s, "metadata")) if name == "raw" else (file_part if name == "file" else field_part)(ck, s, te)[:2]
        return [(s, k, d, {})]

    def chunk(st, f, x, node):
        add(st, "taken", lenof(x))

    def handler(w, st):
        return st.new(Obj("inst", cls=HANDLER, lazy=True, attrs={"chunk_size": NONE}), "handler")
    w = World(ck, part, None, None, handlers=(handler,), watch={"chunk": chunk}, keep=False)
    e = w.e
    attach(e, Progress(ck, what, count=("taken",)))
    w.st.ghost.update({"taken": ZERO, "asked": ZERO, "eof": FALSE})
    for m in ("receive_data_chunk", "handle_raw_input", "new_file", "upload_complete", "file_complete"):
        e.ext_contracts["." + m] = lambda eng, st, args, kw, node: [(st, NONE)] if st.get(args[0]) is not None and st.get(args[0]).cls is HANDLER else None

    def read(eng, st, args, kw, node):
        o = st.get(args[0])
        if o is None or o.cls is not ITERF:
            return None
        add(st, "asked", lconst(1))
        n = args[1] if len(args) > 1 else kw.get("size", NONE)
        end = st.fork()
        end.ghost["eof"] = TRUE
        if st.ghost["eof"] is TRUE:
            return [(end, const(""))]
        x = fresh("more", "str")
        add_lin(st, ladd(lenof(x), lconst(-1)))
        if n is not NONE and (typeof(st, n) == "int" or lin(n)):
            add_lin(st, ladd(lin(n), lenof(x), -1))
        add(st, "taken", lenof(x))
        return [(end, const("")), (st, x)]
    e.ext_contracts[".read"] = read
    e.steps = 0
    try:
        ps = w.parse()
        ck.need("covered", len(ps) > 0, what, "has no outcome")
    except engmod.Budget as b:
        ck.incomplete.append("%s: %s" % (what, b))
    ck.obl["scenarios"] += 1


def parts(ck):
    """each step of a part uses up something, and a part that is over stays over"""
    b = mkcat(const("--"), S("boundary", "str"))
    e = ck.engine(keep=True)
    e.cap = 4000
    st = e.start()
    P = feed(ck, e, st)
    rule = Progress(ck, "BoundaryIter.next", input=("G:data",), rest=("left",))
    e.rule = rule
    add_lin(st, ladd(lenof(b), lconst(-3)))
    for p in ck.script(e, st, "K(P, b)", {"K": T("cls", ck.cls(MP + "BoundaryIter")), "P": P, "b": b}):
        if p.kind == "exc":
            continue
        for p2 in ck.script(e, ready(p.st), "it.next()", {"it": p.v}):
            s = p2.st
            if p2.kind == "ret":
                ck.need("a step takes something", entails(s, ladd(rule.taken(s), lconst(-1))), "BoundaryIter.next",
                        "hands out %s and leaves the stream where it was" % show(p2.v), s)
                for p3 in ck.script(e, ready(s), "it.next()", {"it": p.v}):
                    if p3.kind == "exc" and excname(p3.exc) == "StopIteration":
                        stays(ck, e, p3.st, p.v, "BoundaryIter")
            elif excname(p2.exc) == "StopIteration":
                stays(ck, e, s, p.v, "BoundaryIter")
    for p in ck.script(e, st, "K(P, b)", {"K": T("cls", ck.cls(MP + "InterBoundaryIter")), "P": P, "b": b}):
        if p.kind != "ret":
            continue
        for p2 in ck.script(e, ready(p.st), "it.next()", {"it": p.v}):
            if p2.kind == "ret":
                s = p2.st
                ck.need("a part is not empty", entails(s, ladd(lenof(s.ghost["left"]), lconst(-1))), "InterBoundaryIter.next", "starts a part although nothing is left", s)
            elif excname(p2.exc) == "StopIteration":
                stays(ck, e, p2.st, p.v, "InterBoundaryIter")


def ready(st):
    """what was pushed back is what comes next"""
    s = st.fork()
    s.ghost["G:data"] = s.ghost["left"]
    return s


def stays(ck, e, st, it, name):
    """an iterator that has raised StopIteration raises it again"""
    for p in ck.script(e, st.fork(), "it.next()", {"it": it}):
        ck.need("the end is the end", p.kind == "exc" and excname(p.exc) == "StopIteration", name + ".next",
                "%s after it raised StopIteration" % ("gives %s" % show(p.v) if p.kind == "ret" else "raises %s" % excname(p.exc)), p.st)


def iterators(ck):
    for src, name in (("C(P)", "LazyStream"), ("C(f)", "ChunkIter"), ("C(f, n)", "ChunkIter")):
        e = ck.engine(keep=True)
        e.cap = 2000
        st = e.start()
        f = opened(st, e)
        P = source(e, st)
        n, a = S("n", "int"), S("buffered", "str")
        add_lin(st, ladd(lin(n), lconst(-1)))
        env = {"C": T("cls", ck.cls(DS + name)), "P": P, "f": f, "n": n, "a": a}
        for pre in ("", "it.unget(a)\n", "it.read()\n", "it.close()\n") if name == "LazyStream" else ("",):
            for p in run(ck, e, st, "it = %s\n%sresult = it" % (src, pre), env):
                if p.kind != "ret":
                    continue
                for p2 in ck.script(e, p.st, "it.next()", {"it": p.v}):
                    if p2.kind == "exc" and excname(p2.exc) == "StopIteration":
                        stays(ck, e, p2.st, p.v, name)
                    elif p2.kind == "ret" and name == "LazyStream":
                        for p3 in ck.script(e, p2.st, "it.next()", {"it": p.v}):
                            if p3.kind == "exc" and excname(p3.exc) == "StopIteration":
                                stays(ck, e, p3.st, p.v, name)


def stuck(ck):
    """the same number of bytes pushed back over and over again"""
    for a, what in ((const("x" * 5), "five bytes"), (const("y"), "a byte")):
        for pre in ("", "s.unget('zz')\ns.next()\n", "s.unget('zz')\ns.next()\ns.unget(a)\ns.next()\n"):
            e = ck.engine(keep=True)
            st = e.start()
            P = source(e, st)
            src = "s = C(P)\n" + pre + "s.unget(a)\n" + "s.unget(s.next())\n" * 60
            for p in run(ck, e, st, src, {"C": T("cls", ck.cls(DS + "LazyStream")), "P": P, "a": a}):
                if p.kind == "exc" and excname(p.exc) == "StopIteration":
                    continue
                ck.need("refused", p.kind == "exc" and excname(p.exc).endswith("SuspiciousMultipartForm"), "LazyStream.unget",
                        "%s when %s are pushed back sixty times" % ("goes on" if p.kind == "ret" else "raises %s" % excname(p.exc), what), p.st)


@rule("C05", what="Every loop that header and body parsing, the push-back stream, the boundary splitter, file chunking and the loop over the parts go "
                  "through, on every path: each turn uses up input, or moves a bounded quantity towards its bound, and no turn that finds nothing "
                  "left to read is followed by another (ranking arguments over loop invariants). Every step of a part uses up at least a byte, "
                  "a part is only started when something is left, an iterator that ended stays ended, and pushing back the same number of bytes "
                  "sixty times is refused.",
      assumes=["the source gives finitely many pieces, and ends for good once it has ended", "sizes handed to read() are not negative"])
def c05(ck):
    ck.spread([requests, headers, streams, files, multipart, parts, iterators, stuck], lambda f: f(ck))
    if not ck.incomplete:
        ck.minimum("every turn makes progress", 12)
        ck.minimum("the end is the end", 4)
        ck.minimum("refused", 3)
