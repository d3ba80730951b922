"""C06, C05 (streams): the push-back stream."""
from harness import *


def source(e, st, errors=()):
    """an iterator over byte strings: every next() either gives some bytes (recorded in order) or ends for good"""
    P = st.new(Obj("inst", cls=T("ext", "source"), lazy=True), "source")
    st.ghost["G:all"] = const("")
    st.ghost["eof"] = FALSE

    def nxt(eng, s, args, kw, node):
        if args[0] is not P:
            return None
        end = s.fork()
        end.ghost["eof"] = TRUE
        end.ghost["calls"] = TRUE
        eng.throwx(end, "StopIteration", node)
        for x in errors:
            bad = s.fork()
            bad.ghost["failed"] = TRUE
            eng.throw(bad, x(bad), node)
        if s.ghost.get("eof") is TRUE:
            return []
        x = fresh("chunk", "str")
        s.ghost["G:all"] = mkcat(s.ghost["G:all"], x)
        return [(s, x)]
    e.ext_contracts[".next"] = nxt
    return P


def lazystream(ck, e, a=None, errors=(), length=NONE):
    """a push-back stream in any state it can be in: a push-back buffer `a` before a source at any point"""
    st = e.start()
    P = source(e, st, errors)
    a = a or S("buffered", "str")
    if length is not NONE:
        add_lin(st, lin(length))
    outs = [p for p in ck.script(e, st, "s = C(P)\ns.unget(a)\nresult = s" if length is NONE else "s = C(P, length)\ns.unget(a)\nresult = s",
                                 {"C": T("cls", ck.cls("utils.datastructures.LazyStream")), "P": P, "a": a, "length": length})
            if p.kind == "ret"]
    res = []
    for p in outs:
        st, s = p.st, p.v
        o = st.mut(s)
        for n, v in list(o.attrs.items()):
            if v is length:
                continue
            if n == "position" or typeof(st, v) == "int" and v is not NONE:
                o.attrs[n] = S(n, "int")
            elif st.get(v) is not None and st.get(v).kind == "list":
                st.mut(v).seq = (("seg", S(n, None, ("elems", "int"))),)
        if entails(st, lscale(lenof(a), -1)):
            st.facts[app("val", a)] = const("")
        st.ghost["G:all"] = a
        res.append((st, s, a, P))
    return res


def run(ck, src, env=None, pre=None, errors=(), length=NONE):
    out = []
    e = ck.engine(keep=True)
    e.cap = 4000
    for st, s, a, P in lazystream(ck, e, None, errors, length):
        st = st.fork()
        if pre:
            pre(st)
        for p in ck.script(e, st, src, dict({"s": s, "a": a}, **(env or {}))):
            p.env = {"a": a, "s": s}
            out.append(p)
    return e, out


def total(p):
    return p.st.ghost["G:all"]


STUCK = "SuspiciousMultipartForm"


def lazy_obligations(ck):
    """what every user of a push-back stream may assume"""
    n = S("n", "int")
    b = S("pushed", "str")

    def nonneg(st):
        add_lin(st, lin(n))

    def push(st):
        st.ghost["G:all"] = mkcat(b, st.ghost["G:all"])
    forms = [("read(n)", "p = s.tell()\nx = s.read(n)\nq = s.tell()\ny = s.read()\nresult = (x, y, p, q)", nonneg),
             ("read(size=n)", "p = s.tell()\nx = s.read(size=n)\nq = s.tell()\ny = s.read()\nresult = (x, y, p, q)", nonneg),
             ("read()", "p = s.tell()\nx = s.read()\nq = s.tell()\ny = s.read()\nresult = (x, y, p, q)", None),
             ("next", "p = s.tell()\nx = next(s)\nq = s.tell()\ny = s.read()\nresult = (x, y, p, q)", None),
             ("readline()", "p = s.tell()\nx = s.readline()\nq = s.tell()\ny = s.read()\nresult = (x, y, p, q)", None),
             ("readline(n)", "p = s.tell()\nx = s.readline(n)\nq = s.tell()\ny = s.read()\nresult = (x, y, p, q)", nonneg),
             ("unget", "p = s.tell()\nx = s.unget(b)\nq = s.tell()\ny = s.read()\nresult = ('', y, p, q)", push)]
    length = S("length", "int")

    def one(x):
        name, src, pre, length = x
        if length is not NONE:
            src = src.replace("y = s.read()", "y = b''.join(s)")
        e, ps = run(ck, src, {"n": n, "b": b}, pre, length=length)
        if length is not NONE:
            name += " on a stream with a length"
        ck.need("covered", any(p.kind == "ret" for p in ps), name, "never returns")
        for p in ps:
            st = p.st
            if p.kind == "exc":
                x = excname(p.exc)
                if x == "StopIteration" and name.startswith("next"):
                    ck.need("ends", st.ghost["eof"] is TRUE and e.norm_eq(st, total(p), const("")), name,
                            "ends although %s is still to be delivered" % show(total(p)), st)
                else:
                    ck.need("raises", x.endswith(STUCK), name, "raises %s" % p.exc, st)
                continue
            x, y, t0, t1 = p.v.a
            ck.need("conserved", e.norm_eq(st, mkcat(x, y), total(p)), name, "what is read, %s, and then read to the end, %s, is not the data %s"
                    % (show(x), show(y), show(total(p))), st)
            d = lenof(b) if name.startswith("unget") else lscale(lenof(x), -1)
            ck.need("position", entails_eq(st, lin(t1), ladd(lin(t0), d, -1)), name, "the position goes from %s to %s" % (show(t0), show(t1)), st)
            if name.split(" on ")[0] in ("read(n)", "read(size=n)", "readline(n)"):
                ck.need("at-most", entails(st, ladd(lin(n), lenof(x), -1)), name, "more than n bytes are returned", st)
            if name.split(" on ")[0] in ("read(n)", "read(size=n)"):
                ok = entails(st, ladd(lenof(x), lin(n), -1)) or st.ghost["eof"] is TRUE and e.norm_eq(st, y, const(""))
                ck.need("short-only-at-end", ok, name, "fewer than n bytes although the source has not ended", st)
            if name == "read()":
                ck.need("short-only-at-end", st.ghost["eof"] is TRUE and e.norm_eq(st, y, const("")), name, "does not read to the end", st)
    ck.spread([f + (NONE,) for f in forms] + [f + (length,) for f in forms], one)


def error_of(a):
    return lambda st: T("exc", "IOError", None, tuple(a))


def passed_on(ck, e, p, what, name, a):
    """a failure of the source is reported as the given exception with the same arguments"""
    s = p.st
    if s.ghost.get("failed") is not TRUE:
        ck.need("no-other", p.kind != "exc" or not excname(p.exc).endswith(name), what, "raises %s although the stream did not fail" % p.exc, s)
        return 0
    ck.need("not-swallowed", p.kind == "exc", what, "the stream failed but the result is %s" % (show(p.v) if p.kind == "ret" else ""), s)
    if p.kind == "exc":
        x = excname(p.exc)
        if ck.need("reported-as", x.split(".")[-1] == name, what, "the stream failed and %s is raised instead of %s" % (x, name), s):
            got = [v for _, v in e.getattr(s.fork(), p.v, "args", None)]
            ck.need("same-arguments", got and all(v is T("tup", *a) for v in got), what, "the error's arguments are %s instead of those of "
                    "the stream's error" % ", ".join(show(v) for v in got), s)
    return 1


def lazy_failures(ck):
    a = (S("errno"), S("message"))
    for src, pre in (("s.read(n)", 1), ("s.read()", 0), ("next(s)", 0), ("s.readline()", 0), ("s.readline(n)", 1)):
        n = S("n", "int")
        e, ps = run(ck, src, {"n": n}, (lambda st: add_lin(st, lin(n))) if pre else None, [error_of(a)])
        k = sum(passed_on(ck, e, p, "LazyStream " + src[2:] if src[0] == "s" else "LazyStream " + src, "IOError", a) for p in ps)
        ck.need("covered", k > 0, src, "never reads the source")


@rule("C06", what="Every path of read(n), read(), next, readline and unget of a push-back stream whose buffer, history and source are arbitrary, "
                  "followed by a read to the end: the bytes returned, in order, are the buffered bytes followed by the source's; loops are "
                  "summarised by the invariant that recorded bytes = bytes produced + buffer.",
      assumes=["the source yields byte strings and, once ended, stays ended"])
def c06(ck):
    lazy_obligations(ck)
    ck.minimum("conserved", 14)
    ck.minimum("position", 14)
