"""C26, C27: decision tables of the URL and host checks."""
from harness import *


@rule("C27", what="Every outcome of is_same_domain is compared with the decision table of the statement.")
def c27(ck):
    f = ck.fn("utils.http.is_same_domain")
    for ty in ("str", "unicode"):
        for pt in ("str", "unicode"):
            host, pat = S("host", ty), S("pattern", pt)
            table(ck, f, [host, pat], {"host": host, "pattern": pat})
    table(ck, f, [S("host", "str"), NONE], {"host": host, "pattern": NONE})
    ck.minimum("decision", 4)


def table(ck, f, args, env):
    spec = "pattern and (pattern.lower() == host or (pattern.lower().startswith('.') and " \
           "(host == pattern.lower()[1:] or host.endswith(pattern.lower()))))"
    e = ck.engine(keep=True)
    for p in ck.paths(e, e.start(), f, args):
        if p.kind == "exc":
            ck.need("decision", False, "is_same_domain", "raises %s" % p.exc, p.st)
            continue
        d = ck.agree(e, p.st, p.v, spec, env)
        ck.need("decision", not d, "is_same_domain", "result %s" % (d[0][1] if d else ""), d[0][0] if d else None)


@rule("C26", what="Every outcome of is_safe_url is compared with a reference model of the statement, for byte and text URLs and "
                  "for allowed hosts given as a set, a single host or None; for byte URLs that are not ASCII only acceptance is.",
      assumes=["urllib's _splitnetloc returns the authority of a URL; scheme_chars are the characters of a scheme"])
def c26(ck):
    f, model = ck.fn("utils.http.is_safe_url"), ck.spec("urls.is_safe_url")
    kinds = [("str", ("ascii",)), ("unicode", ()), ("str", ())] if ck.tier == "thorough" else [("unicode", ()), ("str", ())]
    for ty, prov in kinds:
        for ah in ("set", "str", "none"):
            e = ck.engine()
            st = e.start()
            url, https = S("url", ty, prov), S("require_https", "bool")
            hosts = S("hosts", ty) if ah == "str" else NONE if ah == "none" else S("hosts")
            if ah == "set":
                hosts = st.new(Obj("set", seq=(("seg", S("hosts", None, ("elems", ty))),)), "hosts")
                allowed = hosts
            else:
                allowed = st.new(Obj("set", seq=(("one", hosts),) if ah == "str" else ()), "allowed")
            ck.vocabulary(e, st, model, [url, allowed, https])
            ps = ck.paths(e, st, f, [url, hosts, https])

            def eq(eng, s, v, w):
                if ty == "str" and not prov:
                    return all(not eng.split(x, w)[1] for x in eng.split(s.fork(), v)[0])
                return ck.same(eng, s, v, w)
            ck.refine(e, ps, model, [url, allowed, https], "decision", "is_safe_url", eq=eq)
    e = ck.engine()
    st = e.start()
    ps = ck.paths(e, st, f, [NONE, NONE, FALSE])
    ck.refine(e, ps, model, [NONE, NONE, FALSE], "decision", "is_safe_url")
    ck.minimum("decision", 10)


def refines(ck, fname, spec, args, clause="decision", construct=None, **kw):
    """every outcome of the function agrees with the reference model"""
    f, model = ck.fn(fname), ck.spec(spec)
    e = ck.engine()
    st = e.start()
    ck.vocabulary(e, st, model, args)
    ps = ck.paths(e, st, f, args)
    ck.refine(e, ps, model, args, clause, construct or fname.split(".")[-1], **kw)
    return e, ps


@rule("C28", what="Every outcome of parse_http_date, parse_http_date_safe and http_date is compared with a reference model; the "
                  "patterns are compared as languages (minimal automata with group marks).",
      assumes=["a four-digit year below 100 is read like a two-digit one"])
def c28(ck):
    for ty in ("str", "unicode"):
        refines(ck, "utils.http.parse_http_date", "urls.parse_http_date", [S("date", ty)])
        refines(ck, "utils.http.parse_http_date_safe", "urls.parse_http_date_safe", [S("date", ty)])
    for x in (NONE, S("seconds", "float")):
        refines(ck, "utils.http.http_date", "urls.http_date", [x])
    ck.minimum("decision", 20)


@rule("C37", what="Every outcome of parse_etags and quote_etag is compared with a reference model; the pattern is compared as a language.")
def c37(ck):
    for ty in ("str", "unicode"):
        refines(ck, "utils.http.parse_etags", "urls.parse_etags", [S("etags", ty)])
        refines(ck, "utils.http.quote_etag", "urls.quote_etag", [S("etag", ty)])
    ck.minimum("decision", 6)


class Handed(Rule):
    """the constructor arguments of what import_string returned"""
    def __init__(self, ck, cls, args, kw):
        self.ck, self.cls, self.want, self.kw, self.n, self.made = ck, cls, args, kw, 0, S("handler")

    def call(self, eng, st, fn, args, kw, node):
        if fn is not self.cls:
            return None
        self.n += 1
        ok = len(args) == len(self.want) and all(a is b for a, b in zip(args, self.want)) and dict(kw) == self.kw
        self.ck.need("handed-on", ok, "load_handler", "the handler class is called with %s %s instead of the request and arguments given"
                     % (", ".join(map(show, args)), ", ".join("%s=%s" % (k, show(v)) for k, v in kw.items())), st)
        return [(st, self.made)]


@rule("C34", what="Every outcome of import_string is compared with a reference model; load_handler calls what it returns with its own arguments.")
def c34(ck):
    for ty in ("str", "unicode"):
        refines(ck, "utils.module_loading.import_string", "urls.import_string", [S("path", ty)])
    ck.minimum("decision", 10)
    imp = ck.fn("utils.module_loading.import_string")
    for args, kw in (([S("request")], {}), ([S("a"), S("b")], {"c": S("c")}), ([], {"request": S("d")})):
        cls, path = S("handler_class"), S("path", "str")
        r = Handed(ck, cls, args, kw)
        e = ck.engine(r)
        seen = []

        def contract(eng, st, a, k, node):
            seen.append((a, k))
            ck.need("handed-on", len(a) + len(k) == 1 and (list(a) + list(k.values()))[0] is path, "load_handler",
                    "import_string is not given the path", st)
            return [(st, cls)]
        e.contracts[imp.a[0]] = contract
        for p in ck.paths(e, e.start(), ck.fn("files.uploadhandler.load_handler"), [path] + args, kw):
            ck.need("handed-on", p.kind == "ret" and p.v is r.made and seen and r.n, "load_handler",
                    "gives %s instead of the handler" % outcome(p.kind, p.v, p.exc), p.st)


class Entities(Rule):
    def __init__(self, ck, model):
        self.ck, self.model = ck, model

    def sub_result(self, eng, st, v, m, node):
        p = Path("ret", st, v, None, eng)
        self.ck.refine(eng, [p], self.model, [m], "entity", "unescape_entities")


@rule("C38", what="Every outcome of base36_to_int, int_to_base36 (its refusals), urlsafe_base64_encode, urlsafe_base64_decode and of "
                  "the replacement function of unescape_entities is compared with a reference model.",
      assumes=["int(s, 36) refuses malformed text with ValueError", "base64.urlsafe_b64decode raises TypeError for malformed input"])
def c38(ck):
    uni = lambda a, b: a in ("UnicodeEncodeError", "UnicodeDecodeError", "UnicodeError") and b == "ValueError"
    for ty in ("str", "unicode"):
        refines(ck, "utils.http.base36_to_int", "urls.base36_to_int", [S("s", ty)], exc_ok=uni)
        refines(ck, "utils.http.urlsafe_base64_decode", "urls.urlsafe_base64_decode", [S("s", ty)], exc_ok=uni)
    refines(ck, "utils.http.urlsafe_base64_encode", "urls.urlsafe_base64_encode", [S("s", "str")])
    refines(ck, "utils.http.int_to_base36", "urls.int_to_base36", [S("i", "int")], eq=lambda *a: True)
    model, f = ck.spec("urls.replace_entity"), ck.fn("utils.text.unescape_entities")
    for ty in ("str", "unicode"):
        e = ck.engine(Entities(ck, model), keep=True)
        for p in ck.paths(e, e.start(), f, [S("text", ty)]):
            ck.need("never-raises", p.kind == "ret", "unescape_entities", "raises %s" % p.exc, p.st)
    ck.minimum("decision", 12)
    ck.minimum("entity", 8)
