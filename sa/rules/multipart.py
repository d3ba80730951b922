"""C36 and the rules about a multipart parser's parts."""
from harness import *
from .request import conf

MP = "http.multipartparser."


def symheader(ck, e):
    """parse_header: any key and parameters, or ValueError"""
    def parse_header(eng, st, args, kw, node):
        if args and args[0] is NONE:
            return [(st, T("tup", NONE, NONE))]
        bad = st.fork()
        eng.throwx(bad, "ValueError", node)
        st.ghost["header"] = args[0] if args else NONE
        d = st.new(Obj("dict", ent={}, base=S("parameters", None, ("items", "str"))), ("params", node))
        st.ghost["params"] = d
        return [(st, T("tup", S("content_type", "unicode"), d))]
    e.contracts[PKG + "." + MP + "parse_header"] = parse_header


def input_object(e, st):
    """request data that records that it is read"""
    P = st.new(Obj("inst", cls=T("ext", "input"), lazy=True), "input")
    st.ghost["read"] = FALSE

    def touch(what):
        def f(eng, s, args, kw, node):
            if args[0] is not P:
                return None
            s.ghost["read"] = TRUE
            return [(s, fresh("data", "str"))]
        return f
    for n in ("read", "next", "readline"):
        e.ext_contracts["." + n] = touch(n)
    return P


def no_parts(ck, e):
    """splitting the input into parts reads it"""
    def parser(eng, st, args, kw, node):
        st.ghost["read"] = TRUE
        return [(st, st.new(Obj("list", seq=()), ("parts", node)))]

    def exhaust(eng, st, args, kw, node):
        st.ghost["read"] = TRUE
        return [(st, NONE)]
    e.contracts[ck.cls(MP + "Parser")] = parser
    e.contracts[PKG + "." + MP + "exhaust"] = exhaust


def meta(st, ct, cl, q):
    ent = {}
    for k, v in (("Content-Type", ct), ("Content-Length", cl)):
        if v is not None:
            ent[const(k)] = st.new(Obj("list", seq=(("one", v),)), ("meta", k))
    o = Obj("inst", cls=T("cls", q), ent=ent, x="lists")
    return st.new(o, "META")


@rule("C36", what="Every path of building a multipart parser from any headers: built only for a type starting with multipart/, a boundary that "
                  "is valid and a length that is not negative, otherwise MultiPartParserError with no byte read; and every path of parse(): "
                  "nothing is read and the result is empty when the length is absent, zero or not a number.",
      assumes=["cgi.valid_boundary decides which boundaries are valid"])
def c36(ck):
    lens = [None, S("length", "str")] + [const(x) for x in ("0", "", "abc", "-1", "7", "1.5")]
    names = ["absent", "any"] + ["'%s'" % x for x in ("0", "", "abc", "-1", "7", "1.5")]
    for ct in (None, S("type", "str")):
        for cl, lname in zip(lens, names):
            e = ck.engine(keep=True)
            e.cap = 2000
            symheader(ck, e)
            no_parts(ck, e)
            st = e.start()
            P = input_object(e, st)
            c = conf(ck, e, st)
            m = meta(st, ct, cl, ck.cls("utils.datastructures.MultiValueDict"))
            env = {"M": T("cls", ck.cls(MP + "MultiPartParser")), "m": m, "P": P, "c": c, "ct": ct if ct is not None else const(""), "cl": cl or const("0")}
            what = "content type %s, length %s" % ("absent" if ct is None else "any", lname)
            for p in ck.script(e, st, "M(m, P, [], c)", env):
                if p.kind == "exc":
                    ck.need("refused", excname(p.exc).endswith("MultiPartParserError"), what, "raises %s" % p.exc, p.st)
                    ck.need("refused", p.st.ghost["read"] is FALSE, what, "reads the body before refusing it", p.st)
                    d = p.st.ghost.get("params")
                    if d is not None and ck.holds(e, p.st, "d.get('boundary') and cgi.valid_boundary(d.get('boundary'))", {"d": d, "cgi": T("ext", "cgi")}):
                        n = [(s, v) for s, v in ck.ev(e, p.st, "int(cl)", env)]
                        ck.need("refused", n and all(entails(s, ladd(lconst(-1), lin(v), -1)) for s, v in n), what,
                                "is refused although type and boundary are valid and the length need not be negative", p.st)
                    continue
                ck.need("type", ck.holds(e, p.st, "ct.startswith('multipart/')", env), what, "is built for another type", p.st)
                d = p.st.ghost.get("params")
                ck.need("boundary", d is not None and ck.holds(e, p.st, "d.get('boundary') and cgi.valid_boundary(d.get('boundary'))",
                        {"d": d, "cgi": T("ext", "cgi")}), what, "is built although the boundary need not be valid", p.st)
                for s, v in ck.ev(e, p.st, "int(cl)", env):
                    ck.need("length", entails(s, lin(v)), what, "is built although the length may be negative", s)
            for p in ck.script(e, st, "r = M(m, P, [], c)\nx = r.parse()\nresult = x", env):
                if p.kind == "exc":
                    ck.need("refused", excname(p.exc).endswith("MultiPartParserError"), what, "parse() raises %s" % p.exc, p.st)
                    ck.need("refused", p.st.ghost["read"] is FALSE, what, "reads the body before refusing it", p.st)
                    continue
                n = [(s, v) for s, v in ck.ev(e, p.st, "int(cl)", env)]
                if p.st.ghost["read"] is TRUE:
                    ck.need("zero", len(n) == 1 and entails(n[0][0], ladd(lin(n[0][1]), lconst(-1))), what,
                            "reads the body although the length may be zero or no number", p.st)
                else:
                    ck.need("zero", all(entails_eq(s, lin(v), {}) for s, v in n), what, "does not read the body although the length may be positive", p.st)
                    ok = p.v.k == "tup" and len(p.v.a) == 2 and all(
                        p.st.get(x) is not None and p.st.get(x).ent is not None and p.st.get(x).base is None and
                        not any(y is not ABSENT for y in p.st.get(x).ent.values()) for x in p.v.a)
                    ck.need("zero", ok, what, "gives something although nothing was read", p.st)
    ck.minimum("type", 4)
    ck.minimum("zero", 8)
