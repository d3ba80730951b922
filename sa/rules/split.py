"""C07, C39: splitting a multipart body at its boundaries."""
from harness import *

from texts import piece, resolved
from .request import LAZY
from .headers import cases, equal
from .parts import kind_const

MP = "http.multipartparser."


def feed(ck, e, st):
    """A push-back stream, by what the rule for C06 establishes of it: any non-empty chunks, then the end.  G:data = the bytes
    handed out for the first time, left = those pushed back since."""
    P = e.lazy_inst(st, ck.cls("utils.datastructures.LazyStream"), "stream", {})
    afresh(st)

    def mine(args):
        return args and args[0] is P

    def data(s, least):
        x = fresh("data", "str")
        add_lin(s, ladd(lenof(x), lconst(-least)))
        s.ghost["G:data"] = mkcat(s.ghost["G:data"], x)
        return x

    def nxt(eng, st, args, kw, node):
        if not mine(args):
            return None
        st.ghost["used"] = TRUE
        out = []
        back = st.ghost["left"]
        if back is not const(""):
            a = st.fork()
            add_lin(a, ladd(lenof(back), lconst(-1)))
            add_lin(st, lscale(lenof(back), -1))
            if not contradictory(a, []):
                a.ghost["left"] = const("")
                out.append((a, back))
            if contradictory(st, []):
                return out
            st.ghost["left"] = const("")
        end = st.fork()
        end.ghost["eof"] = TRUE
        eng.throwx(end, "StopIteration", node)
        if st.ghost["eof"] is not TRUE:
            out.append((st, data(st, 1)))
        return out

    def read(eng, st, args, kw, node):
        if not mine(args):
            return None
        st.ghost["used"] = TRUE
        n = args[1] if len(args) > 1 else kw.get("size", NONE)
        if st.ghost["eof"] is not TRUE:
            x = data(st, 0)
            st.ghost["left"] = mkcat(st.ghost["left"], x)
        have = st.ghost["left"]
        if n is NONE:
            st.ghost.update({"left": const(""), "eof": TRUE})
            return [(st, have)]
        if st.ghost["eof"] is not TRUE and have is x:
            # nothing was pushed back: exactly n bytes, or fewer at the end
            end = st.fork()
            add_lin(st, ladd(lenof(x), lin(n), -1))
            add_lin(st, ladd(lin(n), lenof(x), -1))
            add_lin(end, ladd(ladd(lin(n), lenof(x), -1), lconst(-1)))
            end.ghost["eof"] = TRUE
            out = [st, end]
            for s in out:
                s.ghost["left"] = const("")
            return [(s, x) for s in out if not contradictory(s, [])]
        a, b = st.fork(), st
        add_lin(a, ladd(lenof(have), lin(n), -1))
        a.ghost["left"] = mkslice(have, n, NONE)
        add_lin(b, ladd(ladd(lin(n), lenof(have), -1), lconst(-1)))
        b.ghost.update({"left": const(""), "eof": TRUE})
        return [(s, x) for s, x in ((a, mkslice(have, NONE, n)), (b, have)) if not contradictory(s, [])]

    def unget(eng, st, args, kw, node):
        if not mine(args):
            return None
        st.ghost["used"] = TRUE
        st.ghost["left"] = mkcat(args[1], st.ghost["left"])
        return [(st, NONE)]
    for n, f in (("next", nxt), ("read", read), ("unget", unget)):
        e.contracts[LAZY + "." + n] = f
    return P


def afresh(st):
    st.ghost.update({"G:data": const(""), "left": const(""), "eof": FALSE, "used": FALSE})


def boundaries(ck):
    model = ck.spec("split.boundary")
    b = mkcat(const("--"), S("boundary", "str"))
    e = ck.engine(keep=True)
    e.cap = 4000
    st = e.start()
    P = feed(ck, e, st)
    add_lin(st, ladd(lenof(b), lconst(-3)))
    its = [p for p in ck.script(e, st, "K(P, b)", {"K": T("cls", ck.cls(MP + "BoundaryIter")), "P": P, "b": b})]
    for p in its:
        if p.kind == "exc":
            ck.need("ends", excname(p.exc).endswith("InputStreamExhausted") and p.st.ghost["eof"] is TRUE and none(e, p.st, p.st.ghost["G:data"]),
                    "BoundaryIter", "%s although bytes are left" % excname(p.exc), p.st)
            continue
        ck.need("conserved", e.norm_eq(p.st, p.st.ghost["left"], p.st.ghost["G:data"]), "BoundaryIter",
                "setting up the split leaves %s of %s" % (show(p.st.ghost["left"]), show(p.st.ghost["G:data"])), p.st)
        s = p.st.fork()
        step(ck, e, s, p.v, b, model, 2)


def step(ck, e, s, it, b, model, n):
    afresh(s)
    con = "BoundaryIter.next"
    for p in ck.script(e, s, "it.next()", {"it": it}):
        st = p.st
        D, left = st.ghost["G:data"], st.ghost["left"]
        if p.kind == "exc":
            x = excname(p.exc)
            if ck.need("raises", x == "StopIteration", con, "raises %s" % x, st):
                ck.need("ends", none(e, st, D) and st.ghost["eof"] is TRUE, con,
                        "ends although no boundary was reached and %s is to be delivered" % show(D), st)
            continue
        for s2, v in spec(e, st, model, D, b):
            if v is NONE:
                ck.need("conserved", e.norm_eq(s2, mkcat(p.v, left), D), con, "without a boundary, hands out %s and keeps %s of %s"
                        % (show(p.v), show(left), show(D)), s2)
                enough = entails(s2, ladd(lenof(left), ladd(lenof(b), lconst(6)), -1))
                ck.need("held-back", enough or s2.ghost["eof"] is TRUE, con, "keeps only %s although more input may follow" % show(left), s2)
                again = "data" if enough else None
                if not enough:
                    finished(ck, e, s2, it, con, none(e, s2, left))
            else:
                if impossible(ck, e, s2, D, b):
                    continue
                R, rest = v.a
                ck.need("data", e.norm_eq(s2, p.v, R), con, "hands out %s before the boundary instead of %s" % (show(p.v), show(R)), s2)
                ck.need("behind", e.norm_eq(s2, left, rest), con, "continues with %s instead of %s" % (show(left), show(rest)), s2)
                finished(ck, e, s2, it, con, True)
                again = None
            if again and n > 1:
                step(ck, e, s2.fork(), it, b, model, n - 1)


def finished(ck, e, s, it, con, always):
    """the next one ends the iteration, and takes nothing"""
    s = s.fork()
    s.ghost["used"] = FALSE
    for p in ck.script(e, s, "it.next()", {"it": it}):
        if always:
            ck.need("ends", p.kind == "exc" and excname(p.exc) == "StopIteration" and (p.st.ghost["used"] is FALSE or p.st.ghost["eof"] is TRUE and e.norm_eq(p.st, p.st.ghost["left"], p.st.ghost["G:data"])),
                    con, "goes on behind the boundary", p.st)


def none(e, st, x):
    """is the string empty?"""
    if e.norm_eq(st, x, const("")) or entails(st, lscale(lenof(x), -1)):
        return True
    ts = list(x.a[1:]) if x.k == "app" and x.a[0] == "cat" else [x]
    return all(entails(st, {app("n", t.a[1]): -1} if t.k == "app" and t.a[0] == "flat" else lscale(lenof(t), -1)) for t in ts)


def impossible(ck, e, s, D, b):
    """is a byte two different ones, or the same and not the same?  (the boundary starts with '-')"""
    i = app("find", D, b)

    def at(t):
        if t is NONE:
            return lconst(0)
        if t.k == "app" and t.a[0] == "max":
            x, y = [lin(v) for v in t.a[1:]]
            if entails(s, ladd(x, y, -1)):
                return x
            if entails(s, ladd(y, x, -1)):
                return y
        return lin(t)
    val = [({i: 1}, "-", True)]
    for f, k in s.facts.items():
        if f.k != "app" or f.a[0] not in ("eq", "endswith") or f.a[2].k != "c" or not isinstance(f.a[2].a[1], str) or f.a[1].k != "app":
            continue
        x, c = f.a[1], f.a[2].a[1]
        if x.a[0] == "char" and x.a[1] is D and f.a[0] == "eq" and len(c) == 1:
            val.append((at(x.a[2]), c, k))
        elif x.a[0] == "slice" and x.a[1] is D:
            lo, hi = at(x.a[2]), lenof(D) if x.a[3] is NONE else at(x.a[3])
            if f.a[0] == "eq" and len(c) == 1 and (k is True or entails_eq(s, ladd(hi, lo, -1), lconst(1))):
                val.append((lo, c, k))
            elif f.a[0] == "endswith" and k is True and entails(s, ladd(lconst(len(c) - 1), ladd(hi, lo, -1), -1)):
                return True
            elif f.a[0] == "endswith" and (k is True or len(c) == 1 and entails(s, ladd(ladd(hi, lo, -1), lconst(-1)))):
                val += [(ladd(hi, lconst(j - len(c))), x, k) for j, x in enumerate(c)]
            elif f.a[0] == "endswith" and entails(s, ladd(ladd(hi, lo, -1), lconst(-len(c)))):
                # not all of them
                if all(is_at(s, D, ladd(hi, lconst(j - len(c))), x, at) for j, x in enumerate(c)):
                    return True
    return any((c != d and k and j or c == d and k != j) and entails_eq(s, p, q) for n, (p, c, k) in enumerate(val) for q, d, j in val[:n])


def is_at(s, D, p, c, at):
    for f, k in s.facts.items():
        if k is True and f.k == "app" and f.a[0] == "eq" and f.a[2] is const(c) and f.a[1].k == "app" and f.a[1].a[0] in ("slice", "char") \
                and f.a[1].a[1] is D and entails_eq(s, at(f.a[1].a[2]), p):
            return True
    return False


def spec(e, st, f, *args):
    ocon, oexc, orule, oext = e.contracts, e.exc, e.rule, e.ext_contracts
    e.contracts, e.exc, e.rule, e.ext_contracts = {}, [], Rule(), {}
    try:
        return e.call(st.fork(), f, tuple(args), {}, None)
    finally:
        e.contracts, e.exc, e.rule, e.ext_contracts = ocon, oexc, orule, oext


def part_headers(ck):
    """parts of known structure and unknown content: [(number of header lines or None without a blank line)]"""
    def one(x):
        try:
            part_header(ck, *x)
        except engmod.Budget as b:
            ck.incomplete.append("parse_boundary_stream: %s" % b)
    for x in ((0, True, False), (1, True, False), (2, True, False), (0, False, False), (1, False, False), (1, True, True)):
        one(x)


def part_header(ck, n, blank, odd=False):
    con = "parse_boundary_stream"
    kinds = {k: kind_const(ck, k) for k in ("RAW", "FIELD", "FILE")}
    e = ck.engine(keep=True)
    e.cap, e.unroll = 4000, 8
    st = e.start()
    P = e.lazy_inst(st, ck.cls("utils.datastructures.LazyStream"), "stream", {})
    lines = [mkcat(piece("line%d" % i, ("\n", "\r")), const("\n"), piece("rest of line%d" % i, ("\n", "\r"))) if odd else piece("line%d" % i, ("\r\n",), 1) for i in range(n)]
    ts = []
    for i, l in enumerate(lines):
        ts += ([const("\r\n")] if i else []) + [l]
    body = piece("payload", () if blank else ("\r\n",))
    D = mkcat(*(ts + [const("\r\n\r\n"), body])) if blank else mkcat(*(ts + [const("\r\n"), body]))
    st.ghost.update({"read": FALSE, "left": const("")})
    size = S("max_header_size", "int")
    add_lin(st, ladd(lin(size), lenof(D), -1))
    names = [piece("name%d" % i, (":",), 0, "unicode") for i in range(n)]
    values = [piece("value%d" % i, (), 0, "unicode") for i in range(n)]

    def read(eng, s, args, kw, node):
        if args[0] is not P:
            return None
        m = args[1] if len(args) > 1 else kw.get("size", NONE)
        if m is not size or s.ghost["read"] is TRUE:
            raise engmod.Budget("reads that are not followed")
        s.ghost["read"] = TRUE
        return [(s, D)]

    def unget(eng, s, args, kw, node):
        s.ghost["left"] = mkcat(args[1], s.ghost["left"])
        return [(s, NONE)]

    def nxt(eng, s, args, kw, node):
        raise engmod.Budget("reads that are not followed")

    def header(eng, s, args, kw, node):
        ix = [i for i, l in enumerate(lines) if args[0] is l or eng.norm_eq(s, args[0], l)]
        if not ix:
            if eng.norm_eq(s, args[0], const("")):
                return [(s, T("tup", const("", "unicode"), s.new(Obj("dict", ent={}), ("none", node))))]
            if not resolved(args[0]):
                raise engmod.Budget("a line that is not followed")
            ck.need("header-lines", False, con, "%s is taken for a header line of %s" % (show(args[0]), show(D)), s)
            return [(s, T("tup", fresh("key", "unicode"), s.new(Obj("dict", ent={}), ("none", node))))]
        i = ix[0]
        out = []
        bad = s.fork()
        bad.ghost["how%d" % i] = const("bad")
        eng.throwx(bad, "ValueError", node)
        for how in ("no colon", "file", "field", "no name"):
            s2 = s.fork()
            s2.ghost["how%d" % i] = const(how)
            ent = {}
            if how in ("file", "no name"):
                f = fresh("filename", "str")
                add_lin(s2, ladd(lenof(f), lconst(-1)) if how == "file" else lscale(lenof(f), -1))
                if how == "no name":
                    f = const("")
                ent[const("filename")] = f
            d = s2.new(Obj("dict", ent=ent), ("params%d" % i, node))
            s2.ghost["params%d" % i] = d
            out.append((s2, T("tup", names[i] if how == "no colon" else mkcat(names[i], const(":", "unicode"), values[i]), d)))
        return out
    for k, f in (("read", read), ("unget", unget), ("next", nxt)):
        e.contracts[LAZY + "." + k] = f
    e.contracts[PKG + ".http.multipartparser.parse_header"] = header
    f = ck.fn(MP + "parse_boundary_stream")
    what = "a part with %d header lines" % n if blank else "a part without a blank line"
    pairs = [(names[i], names[j]) for i in range(n) for j in range(i)] + [(x, const("content-disposition")) for x in names]
    for p in ck.paths(e, st, f, [P, size]):
        if p.kind == "exc":
            ck.need("raises", False, con, "%s: raises %s" % (what, excname(p.exc)), p.st)
            continue
        if p.v.k != "tup" or len(p.v.a) != 3:
            raise engmod.Budget("a result that is not followed")
        kind, d, sub = p.v.a
        ck.need("stream", sub is P, con, "%s: the payload is read from %s" % (what, show(sub)), p.st)
        left = p.st.ghost["left"]
        for s in cases(e, p.st, pairs):
            how = [s.ghost.get("how%d" % i) for i in range(n)]
            if blank and any(h is None for h in how):
                ck.need("header-lines", False, con, "%s: a header line is not looked at" % what, s)
                continue
            good = [i for i in range(n) if blank and how[i].a[1] not in ("bad", "no colon")]
            disp = [i for i in good if equal(e, s, names[i], const("content-disposition"))]
            want = "RAW" if not disp else "FILE" if how[disp[-1]].a[1] == "file" else "FIELD"
            ck.need("kind", kind is kinds[want], con, "%s: is taken for %s instead of %s" % (what, show(kind), want), s)
            rest = D if want == "RAW" else body
            ck.need("payload", e.norm_eq(s, left, rest), con, "%s: continues with %s instead of %s" % (what, show(left), show(rest)), s)
            if want == "RAW":
                continue
            for i in good:
                same = [j for j in good if j == i or equal(e, s, names[i], names[j])]
                if same[-1] != i:
                    continue
                for q in ck.script(e, s, "d[n]", {"d": d, "n": names[i]}):
                    if q.kind == "exc":
                        if q.st.get(d) is None:
                            raise engmod.Budget("headers that are not followed")
                        ck.need("headers", False, con, "%s: the header %s is missing" % (what, show(names[i])), q.st)
                        continue
                    ok = q.v.k == "tup" and len(q.v.a) == 2 and e.norm_eq(q.st, q.v.a[0], values[i]) and q.v.a[1] is q.st.ghost["params%d" % i]
                    ck.need("headers", ok, con, "%s: the header %s is %s" % (what, show(names[i]), show(q.v)), q.st)


CONSUMERS = {"reads nothing": "pass", "reads everything": "s.read()", "reads some": "s.read(n)", "takes chunks": "for c in s:\n        break",
             "takes every chunk": "for c in s:\n        pass", "reads some of one and leaves others": "if f(s):\n        s.read(n)",
             "pushes back": "s.unget(s.read(n))"}


def parts_of(ck):
    """the parts a Parser hands out, whatever is read of each: a part starts only behind the one before"""
    for name, body in sorted(CONSUMERS.items()):
        try:
            drained(ck, name, body)
        except engmod.Budget as b:
            ck.incomplete.append("Parser, %s: %s" % (name, b))


def drained(ck, name, body):
    con = "Parser.__iter__"
    e = ck.engine(keep=True)
    e.cap = 4000
    st = e.start()
    P = e.lazy_inst(st, ck.cls("utils.datastructures.LazyStream"), "stream", {})
    b = S("boundary", "str")
    n = S("n", "int")
    add_lin(st, ladd(lin(n), lconst(-1)))
    st.ghost.update({"open": FALSE, "done": FALSE, "back": FALSE, "made": FALSE})

    def sep(eng, s, args, kw, node):
        """BoundaryIter(stream, separator)"""
        stream = args[1] if len(args) > 1 else kw.get("stream")
        bound = args[2] if len(args) > 2 else kw.get("boundary")
        ck.need("separator", stream is P and bound is not None and eng.norm_eq(s, bound, mkcat(const("--"), b)), con, "the body is split at %s" % show(bound), s)
        ck.need("behind-the-last", s.ghost["open"] is FALSE or s.ghost["done"] is TRUE, con,
                "a further part is started although the one before is not read to its end (the caller %s)" % name, s)
        s.ghost["made"] = TRUE
        end = s.fork()
        eng.throwx(end, PKG + ".exceptions.exceptions.InputStreamExhausted", node)
        s.ghost.update({"open": TRUE, "done": FALSE, "back": FALSE})
        s.mut(args[0]).lazy = True
        return [(s, NONE)]

    def init(eng, s, args, kw, node):
        s.mut(args[0]).lazy = True
        return [(s, NONE)]

    def data(s, least):
        x = fresh("data", "str")
        add_lin(s, ladd(lenof(x), lconst(-least)))
        return x

    def nxt(eng, s, args, kw, node):
        if args[0] is P:
            return [(s, data(s, 1))]
        if s.ghost["done"] is not TRUE or s.ghost["back"] is TRUE:
            end = s.fork()
            end.ghost.update({"done": TRUE, "back": FALSE})
            eng.throwx(end, "StopIteration", node)
            return [(s, data(s, 1))]
        eng.throwx(s, "StopIteration", node)
        return []

    def read(eng, s, args, kw, node):
        m = args[1] if len(args) > 1 else kw.get("size", NONE)
        x = data(s, 0)
        if args[0] is P:
            return [(s, x)]
        if m is NONE:
            s.ghost.update({"done": TRUE, "back": FALSE})
            return [(s, x)]
        end = s.fork()
        end.ghost.update({"done": TRUE, "back": FALSE})
        add_lin(s, ladd(lenof(x), lin(m), -1))
        add_lin(end, ladd(ladd(lin(m), lenof(x), -1), lconst(-1)))
        return [(q, x) for q in (s, end) if not contradictory(q, []) and (q is end or q.ghost["done"] is not TRUE or q.ghost["back"] is TRUE)]

    def unget(eng, s, args, kw, node):
        if args[0] is not P and not entails(s, lscale(lenof(args[1]), -1)):
            s.ghost["back"] = TRUE
            s.ghost["done"] = FALSE
        return [(s, NONE)]
    e.contracts[ck.cls(MP + "BoundaryIter") + ".__init__"] = sep
    for k, f in (("__init__", init), ("next", nxt), ("read", read), ("unget", unget)):
        e.contracts[LAZY + "." + k] = f

    def header(eng, s, args, kw, node):
        bad = s.fork()
        eng.throwx(bad, "ValueError", node)
        return [(s, T("tup", fresh("key", "unicode"), s.new(Obj("dict", ent={}, lazy=True), ("params", node))))]
    e.contracts[PKG + ".http.multipartparser.parse_header"] = header
    src = "for k, m, s in K(P, b):\n    %s\nresult = 1" % body
    for p in ck.script(e, st, src, {"K": T("cls", ck.cls(MP + "Parser")), "P": P, "b": b, "n": n, "f": S("f")}):
        ck.need("covered", p.st.ghost["made"] is TRUE, con, "no part is looked for", p.st)
        if p.kind == "exc":
            ck.need("raises", name == "reads some of one and leaves others" and not excname(p.exc).startswith(PKG), con, "raises %s" % excname(p.exc), p.st)


@rule("C07", what="Every path of BoundaryIter over a push-back stream with any data in any chunks and any boundary: what is handed out and what is "
                  "pushed back are compared with a reference model of the split, and again in the states after it (loops summarised).  "
                  "parse_boundary_stream over part headers of known structure (up to two lines) and unknown content.",
      assumes=["the push-back stream is as C06 establishes", "a boundary starts with '--'"])
def c07(ck):
    boundaries(ck)
    part_headers(ck)
    ck.minimum("data", 4)
    ck.minimum("payload", 10)


@rule("C39", what="Typestate of Parser: a part's stream has ended before the next part is started, for seven kinds of consumers; "
                  "BoundaryIter as for C07, so that a part's stream ends exactly where the next part starts.",
      assumes=["the push-back stream is as C06 establishes", "the stream of a part stays at its end once it ended"])
def c39(ck):
    parts_of(ck)
    boundaries(ck)
    ck.minimum("behind-the-last", 7)
    ck.minimum("behind", 4)
