"""C24, C35: the header of a request, over requests of known structure and unknown content."""
import os
import re
import relang
from harness import *
from texts import piece, parts, resolved
import texts
from .request import LAZY, REQ, conf, qd_contract

CRLF = "\r\n"
INVALID = PKG + ".http.request.InvalidHttpRequest"
NOHOST = PKG + ".http.request.NoHostFoundException"


class Rounds(Rule):
    narrow = False

    """notes loops that were not followed to their end"""
    def unbounded(self, eng, node):
        raise engmod.Budget("a loop that was not followed to its end")

    def undecided(self, eng, text, node):
        if self.narrow or any(texts.isconst(t) and CRLF in t.a[1] for t in parts(text)):
            raise engmod.Budget("the place of something in the header is not decided")


class Shape:
    """a request: its parts, and what it should be read as"""
    def __init__(self, name, line, lines, no=()):
        self.name = name
        self.line = [piece("part%d of the request line" % i, (" ", CRLF)) for i in range(line)]
        self.lines = []
        ts = []
        for i, p in enumerate(self.line):
            ts += ([const(" ")] if i else []) + [p]
        ts.append(const(CRLF))
        for i, k in enumerate(lines):
            if k == "h":
                n, v = piece("name%d" % i, (":", CRLF)), piece("value%d" % i, (CRLF,))
                ts += [n, const(":"), v]
                self.lines.append((n, v))
            else:
                ts += [piece("line%d without a colon" % i, (":", CRLF), 1)]
            ts.append(const(CRLF))
        ts.append(const(CRLF))
        self.head = parts(mkcat(*ts))
        self.body = piece("body", no)

    def atoms(self, halves):
        """the parts, with the pieces cut in two: [(part, first and second half)]"""
        out, m = [], {}
        for t in self.head + [self.body]:
            if halves and texts.ispiece(t):
                no = set(texts.info(t)[0])
                if t is not self.body:
                    no |= {"\r", "\n"}
                a, b = piece(t.a[1] + " (first half)", no, texts.info(t)[1]), piece(t.a[1] + " (second half)", no)
                m[t] = mkcat(a, b)
                out += [a, b]
            else:
                out.append(t)
        return out, m


def positions(ts):
    """the places the text can be cut at"""
    out = []
    for i, t in enumerate(ts):
        out.append((i, 0))
        if texts.isconst(t):
            out += [(i, k) for k in range(1, len(t.a[1]))]
    return out[1:]


def chunks(ts, cuts):
    res, last = [], (0, 0)
    for c in list(cuts) + [(len(ts), 0)]:
        seg = []
        for i in range(last[0], min(c[0] + 1, len(ts))):
            t = ts[i]
            lo = last[1] if i == last[0] else 0
            hi = c[1] if i == c[0] else None
            if hi == 0:
                continue
            seg.append(const(t.a[1][lo:hi], t.a[0]) if texts.isconst(t) else t)
        res.append(mkcat(*seg))
        last = c
    return res


def world(ck, e, script, narrow):
    """a request whose stream gives the chunks of the script, one per read: [(state, request)]"""
    st = e.start()
    P = st.new(Obj("inst", cls=T("ext", "source"), lazy=True), "source")
    c = conf(ck, e, st)
    st.ghost.update({"at": ZERO, "back": const(""), "lost": FALSE, "why": const("")})
    for n, v in list(ck.prog.classes[LAZY].ns.items()):
        def lost(eng, s, args, kw, node):
            s.ghost["lost"] = TRUE
            return [(s, fresh("anything"))]
        e.contracts[LAZY + "." + n] = lost

    def init(eng, s, args, kw, node):
        s.mut(args[0]).lazy = True
        return [(s, NONE)]

    def read(eng, s, args, kw, node):
        n = args[1] if len(args) > 1 else kw.get("size", NONE)
        k = s.ghost["at"].a[1]
        if s.ghost["back"] is not const("") or n is NONE:
            s.ghost["lost"] = TRUE
        if k == len(script):
            return [(s, const(""))]
        x = script[k]
        s.ghost["at"] = const(k + 1)
        d = ladd(lin(n), lenof(x), -1)
        add_lin(s, d)
        if k + 1 < len(script):
            # a read gives fewer bytes only at the end
            add_lin(s, lscale(d, -1))
        if contradictory(s, []):
            return []
        return [(s, x)]

    def unget(eng, s, args, kw, node):
        s.ghost["back"] = mkcat(args[1], s.ghost["back"])
        return [(s, NONE)]
    e.contracts.update({LAZY + ".__init__": init, LAZY + ".read": read, LAZY + ".unget": unget})
    qd_contract(ck, e)

    def urlparse(eng, s, args, kw, node):
        bad = s.fork()
        bad.ghost["why"] = const("uri")
        eng.throwx(bad, "ValueError", node)
        fs = {n: S("uri " + n, "str") for n in ("scheme", "netloc", "path", "params", "query", "fragment")}
        if narrow:
            fs.update(scheme=const("http"), query=const(""))
        s.ghost.update(fs, uri=args[0])
        return eng.x_fparse_ParseResult(s, tuple(fs.values()), {}, node)

    def parse_header(eng, s, args, kw, node):
        if args and args[0] is NONE:
            return [(s, T("tup", NONE, NONE))]
        bad = s.fork()
        bad.ghost["why"] = const("content type")
        eng.throwx(bad, "ValueError", node)
        d = s.new(Obj("dict", ent={}), ("params", node))
        return [(s, T("tup", S("content_type", "unicode"), d))]
    e.contracts[PKG + ".utils.http._urlparse"] = urlparse
    e.contracts[PKG + ".http.multipartparser.parse_header"] = parse_header
    if narrow:
        e.contracts[PKG + ".http.request.split_domain_port"] = lambda eng, s, args, kw, node: [(s, T("tup", S("host", "str"), const("8080")))]
    for x in script:
        for t in parts(x):
            if texts.ispiece(t) and texts.info(t)[1]:
                add_lin(st, ladd(lenof(t), lconst(-texts.info(t)[1])))
    return [(p.st, p.v, c) for p in ck.script(e, st, "R(P, c)", {"R": T("cls", ck.cls(REQ)), "P": P, "c": c}) if p.kind == "ret"]


def run(ck, script, narrow):
    e = ck.engine(Rounds(), keep=True)
    e.unroll = 12
    e.rule.narrow = narrow
    e.cap = 2000
    e.max_steps = 400000
    out = []
    for st, r, c in world(ck, e, script, narrow):
        for p in ck.script(e, st, "r.parse_request_header()", {"r": r}):
            out.append((e, r, p))
    return out


def unfollowed(ck, e, p):
    return p.st.ghost["lost"] is TRUE


class Unclear(Exception):
    pass


def truth(e, st, v):
    a, b = e.split(st.fork(), v)
    return bool(a), bool(b)


def cases(e, st, pairs):
    """the states in which each of the pairs is known to be equal or not"""
    outs = [st.fork()]
    for a, b in pairs:
        nxt = []
        for s in outs:
            x, y = e.split(s, e.cmp_eq(s, a, b))
            nxt += x + y
        outs = nxt
    return [s for s in outs if transitive(e, s, pairs)]


def transitive(e, s, pairs):
    """is the equality of the pairs an equivalence?"""
    rep = {}

    def find(x):
        while x in rep:
            x = rep[x]
        return x
    eq = [(a, b, equal(e, s, a, b)) for a, b in pairs]
    for a, b, k in eq:
        if k and find(a) is not find(b):
            rep[find(a)] = find(b)
    return all(k or find(a) is not find(b) for a, b, k in eq)


def equal(e, st, a, b):
    return a is b or e.decide(st, e.cmp_eq(st, a, b)) is True


def subst_text(t, m):
    return subst(t, m) if m else t


def same_text(e, s, m, got, want):
    """True, False, or None when the value found is not followed to its end"""
    want = subst_text(want, m)
    if got is want or isstr(s, got) and isstr(s, want) and e.norm_eq(s, got, want):
        return True
    if not resolved(got):
        return None
    return False


def accepted(ck, pid, sh, m, e, r, p, script):
    """the obligations of an accepted request"""
    where = "header of a request (%s)" % sh.name
    con = "http.request.HttpRequest.parse_request_header"
    names = [subst_text(n, m) for n, _ in sh.lines]
    values = [texts.strip(subst_text(v, m), "strip") for _, v in sh.lines]
    pairs = [(names[i], names[j]) for i in range(len(names)) for j in range(i)] + [(n, const("Host")) for n in names]
    M = T("cls", ck.cls("http.constants.MetaDict"))
    uri = p.st.ghost.get("netloc")
    if uri is None:
        raise Unclear("the request URI")
    for s in cases(e, p.st, pairs):
      for inuri, s in zip((True, False), e.split(s, T_not_empty(uri))):
       for s in s:
        hosts = [i for i, n in enumerate(names) if equal(e, s, n, const("Host"))]
        gone = [] if inuri else hosts
        if pid == "C23":
            Valid(ck)(e, r, s, where)
            continue
        if pid == "C35":
            reported(ck, sh, m, e, r, s, inuri, [values[i] for i in hosts], con)
            continue
        # the rest of the stream
        k = s.ghost["at"].a[1]
        left = mkcat(s.ghost["back"], *script[k:])
        got = same_text(e, s, m, left, sh.body)
        if got is None:
            raise Unclear("the bytes left on the stream: %s" % show(left))
        ck.need("the bytes behind the header stay readable", got, con,
                "%s: leaves %s on the stream instead of %s" % (where, show(left), show(subst_text(sh.body, m))), s)
        groups = {}
        for i, n in enumerate(names):
            for j in groups:
                if equal(e, s, names[j], n):
                    groups[j].append(i)
                    break
            else:
                groups[i] = [i]
        for j, ix in groups.items():
            if j in gone:
                continue
            for q in ck.script(e, s, "r.META[M.Info.REQ_HEADERS].getlist(n)", {"r": r, "n": names[j], "M": M}):
                if q.kind == "exc":
                    ck.need("every header line is kept under its name, in order", False, con, "%s: reading a header raises %s" % (where, excname(q.exc)), q.st)
                    continue
                o = q.st.get(q.v)
                seq = o.seq if o is not None else None
                if seq is None or any(k != "one" for k, _ in seq):
                    raise Unclear("the values of a header: %s" % vshow(q.st, q.v))
                ok = len(seq) == len(ix)
                for (_, x), i in zip(seq, ix) if ok else ():
                    b = same_text(e, q.st, m, x, values[i])
                    if b is None:
                        raise Unclear("the value of a header: %s" % show(x))
                    ok = ok and b
                ck.need("every header line is kept under its name, in order", ok, con,
                        "%s: the header named %s holds [%s] instead of [%s]" % (where, show(names[j]), ", ".join(show(x) for _, x in seq),
                                                                                ", ".join(show(values[i]) for i in ix)), q.st)
        want = [j for j in groups if j not in gone]
        for q in ck.script(e, s, "list(r.META[M.Info.REQ_HEADERS].keys())", {"r": r, "M": M}):
            if q.kind == "exc" or q.st.get(q.v) is None or q.st.get(q.v).seq is None:
                raise Unclear("the names of the headers")
            seq = q.st.get(q.v).seq
            if any(k != "one" for k, _ in seq):
                raise Unclear("the names of the headers: %s" % vshow(q.st, q.v))
            have = []
            for _, x in seq:
                g = [j for j in groups if equal(e, q.st, names[j], x)]
                if not g and not resolved(x):
                    raise Unclear("the name of a header: %s" % show(x))
                have.append(g[0] if g else None)
            ck.need("nothing else becomes a header", all(h is not None for h in have) and set(want) <= set(have), con,
                    "%s: the headers are named [%s]" % (where, ", ".join(show(x) for _, x in seq)), q.st)


def T_not_empty(x):
    from engine import mk_not, T_eqz
    return mk_not(T_eqz(lenof(x)))


def reported(ck, sh, m, e, r, s, inuri, hosts, con):
    where = "header of a request (%s)" % sh.name
    env = {"r": r}

    def attr(s, n):
        return ck.ev(e, s, "r." + n, env)
    for i, n in ((0, "method"), (2, "protocol_info")):
        want = subst_text(sh.line[i], m)
        for s2, v in attr(s, n):
            b = same_text(e, s2, m, v, sh.line[i])
            if b is None:
                raise Unclear("the %s reported: %s" % (n, show(v)))
            ck.need("the parts of the request line are reported", b, con, "%s: %s is %s instead of %s" % (where, n, show(v), show(want)), s2)
    u = s.ghost["uri"]
    b = same_text(e, s, m, u, sh.line[1])
    if b is None:
        raise Unclear("the request URI: %s" % show(u))
    ck.need("the parts of the request line are reported", b, con, "%s: %s is taken for the request URI" % (where, show(u)), s)
    for s2, v in attr(s, "path"):
        ck.need("the path is the URI's", v is s.ghost["path"] or v.k == "app" and v.a[0] == "typed", con, "%s: the path is %s" % (where, show(v)), s2)
    src = [s.ghost["netloc"]] if inuri else hosts
    if not src:
        ck.need("a host is named", False, con, "%s: accepted without any host" % where, s)
        return
    H, SP = ck.spec("hosts.host_port"), ck.spec("hosts.scheme_port")

    def spec(st, f, *args):
        ocon, eng_exc = e.contracts, e.exc
        e.contracts, e.exc = {}, []
        try:
            return e.call(st, f, tuple(args), {}, None)
        finally:
            e.contracts, e.exc = ocon, eng_exc
    msgs = []
    s, _ = bridge(e, s, pattern(ck, "_HOST"))
    for x in src:
        msg = None
        for s2, hp in spec(s.fork(), H, x):
            for s3, sp in spec(s2, SP, s.ghost["scheme"], hp.a[1]):
                for n, w in (("host", hp.a[0]), ("port", sp.a[1]), ("scheme", sp.a[0])):
                    for s4, v in attr(s3, n):
                        ck.obl["host, port and scheme are those of the request"] += 1
                        if not ck.same(e, s4, v, w):
                            if opaque(v):
                                raise Unclear("the %s reported: %s" % (n, show(v)))
                            msg = (n, "%s: the %s reported is %s where the specification says %s" % (where, n, show(v), show(w)), s4)
        if msg is None:
            return
        msgs.append(msg)
    n, msg, s4 = msgs[-1]
    ck.fail("host, port and scheme are those of the request", con + " (" + n + ")", msg, s4)


def pattern(ck, name):
    """the pattern of a reference model"""
    import ast
    for n in ast.walk(ast.parse(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "hosts.py")).read())):
        if isinstance(n, ast.Assign) and n.targets[0].id == name:
            return n.value.args[0].value
    raise AssertionError(name)


def matched(e, s):
    """[(pattern term, text, bool)]: what is known about patterns and texts"""
    out, seen = [], set()
    for f in list(s.facts):
        for m in subterms(f):
            if m.k == "app" and m.a[0] == "match" and m.a[3] in ("match", "fullmatch") and m not in seen:
                seen.add(m)
                a, b = e.split(s.fork(), m)
                if not (a and b):
                    out.append((m, bool(a)))
    return out


def bridge(e, s, pat, valid=False):
    """what the source's patterns say is also known of the reference pattern: where they are the same language, or (valid) where the
    source's is part of the other; [(state, texts that match)]"""
    L = relang.language(pat, 0)
    ref = e.norm_regex(app("regex", const(pat), const(0)), "match")
    texts = []
    for m, yes in matched(e, s):
        r = m.a[1]
        if r.a[1].k != "c" or e.reflags(r.a[2]) is None:
            continue
        M = relang.language(r.a[1].a[1], e.reflags(r.a[2]), m.a[3] == "fullmatch")
        if r is not ref and not (relang.included(M, L) and (valid and yes or relang.included(L, M))):
            continue
        if yes:
            texts.append(m.a[2])
        if r is not ref:
            sides = e.split(s, app("match", ref, m.a[2], "match"))
            if not sides[0 if yes else 1]:
                return s, texts
            s = sides[0 if yes else 1][0]
    return s, texts


def opaque(v):
    """parts of a match that are not followed"""
    return any(x.k == "app" and x.a[0] in ("group", "elemat", "match") or x.k == "sym" and x.a[1].startswith("re.") for x in subterms(v))


class Valid:
    """C23: the host and port of an accepted request, as far as their characters go"""
    con = "http.request.HttpRequest.parse_request_header"

    def __init__(self, ck):
        self.ck, self.pat = ck, pattern(ck, "_VALID")
        self.host = relang.language(r"\A([a-z0-9.-]*|\[[a-f0-9:.]+\])\Z", 0)

    def __call__(self, e, r, s, where):
        ck, env = self.ck, {"r": r}
        s, texts = bridge(e, s, self.pat, True)
        V = ck.spec("hosts.valid_host_port")
        models = []
        for y in texts:
            ocon, eng_exc = e.contracts, e.exc
            e.contracts, e.exc = {}, []
            try:
                models.append(e.call(s.fork(), V, (y,), {}, None))
            finally:
                e.contracts, e.exc = ocon, eng_exc
        for n, what in (("get_host()", "host"), ("get_port()", "port")):
            for s1, v in ck.ev(e, s, "r." + n, env):
                x = v
                while x.k == "app" and (x.a[0] == "rstrip" and what == "host" and x.a[2:] == (const("."),) or x.a[0] in ("str", "typed")):
                    x = x.a[1]
                ok = False
                if x.k == "c":
                    ok = relang.included(relang.language(re.escape(str(x.a[1])), 0, True), self.host) if what == "host" else str(x.a[1]).isdigit()
                elif models:
                    for ms in models:
                        good = True
                        for s2, hp in ms:
                            w = hp.a[0 if what == "host" else 1]
                            if what == "port" and e.norm_eq(s2, w, const("")):
                                good = good and self.digits(e, s2, x)
                                continue
                            if what == "host" and x is not v and e.decide(s2, e.starts(x, const("."), "endswith")) is True:
                                continue        # all trailing dots are taken off
                            good = good and (ck.same(e, s2, x, w) or what == "port" and self.digits(e, s2, x))
                        ok = ok or good
                if not ok and opaque(x):
                    raise Unclear("the %s reported: %s" % (what, show(v)))
                ck.need("a valid host or none" if what == "host" else "a port of digits", ok, self.con + " (%s)" % what,
                        "%s: %s gives %s" % (where, n, show(v)), s1)

    def digits(self, e, s, v):
        return v.k == "c" and str(v.a[1]).isdigit()


def check(ck, pid, sh, script, m, good, rule):
    """one request, read in the chunks of the script"""
    con = "http.request.HttpRequest.parse_request_header"
    where = "header of a request (%s)" % sh.name
    try:
        res = run(ck, script, pid == "C24")
    except engmod.Budget as b:
        ck.incomplete.append("%s: %s" % (where, b))
        return
    for e, r, p in res:
        if unfollowed(ck, e, p):
            ck.incomplete.append("%s: loops or reads that could not be followed" % where)
            return
    for e, r, p in res:
        try:
            if p.kind == "exc":
                x = excname(p.exc)
                why = p.st.ghost["why"].a[1]
                if not good:
                    if pid == "C24":
                        ck.need("anything else is refused with InvalidHttpRequest", x.endswith("InvalidHttpRequest"), con, "%s: raises %s" % (where, x), p.st)
                elif x.endswith("InvalidHttpRequest"):
                    if pid == "C24":
                        ck.need("only such requests are refused", why != "", con, "%s: is refused with InvalidHttpRequest" % where, p.st)
                elif x.endswith("NoHostFoundException") and pid == "C35":
                    names = [subst_text(n, m) for n, _ in sh.lines]
                    for s in cases(e, p.st, [(names[i], names[j]) for i in range(len(names)) for j in range(i)] + [(n, const("Host")) for n in names]):
                        u = s.ghost.get("netloc")
                        ok = u is not None and not e.split(s.fork(), T_not_empty(u))[0] and not any(equal(e, s, n, const("Host")) for n in names)
                        ck.need("only a request without a host is refused for it", ok, con, "%s: NoHostFoundException although a host is named" % where, s)
                continue
            if not good:
                if pid == "C24":
                    ck.need("anything else is refused with InvalidHttpRequest", False, con, "%s: is accepted" % where, p.st)
                continue
            accepted(ck, pid, sh, m, e, r, p, script)
        except (Unclear, engmod.Budget) as u:
            ck.incomplete.append("%s: %s" % (where, u))
            return


def scenarios(ck, pid):
    """[(shape, chunks, substitution, well-formed?)]"""
    out = []
    for n in (1, 2, 3):
        out.append((Shape("%d header lines" % n, 3, "h" * n), None, True))
    if pid in ("C35", "C23"):
        return [(sh, [mkcat(*(sh.head + [sh.body]))], {}, g) for sh, _, g in out[:2]]
    for n in (1, 2, 3):
        for i in range(n):
            out.append((Shape("line %d of %d without a colon" % (i + 1, n), 3, "h" * i + "x" + "h" * (n - 1 - i)), None, False))
    out.append((Shape("no header line", 3, ""), None, False))
    for k in (1, 2, 4):
        out.append((Shape("a request line of %d parts" % k, k, "h"), None, False))
    res = [(sh, [mkcat(*(sh.head + [sh.body]))], {}, g) for sh, _, g in out]
    # the text in two or three reads
    for n, no in ((1, ()), (2, ()), (1, CRLF), (2, CRLF)):
        sh = Shape("%d header lines" % n, 3, "h" * n, no=no)
        ts, m = sh.atoms(True)
        ps = positions(ts)
        for c in ps:
            res.append((sh, chunks(ts, [c]), m, True))
        tail = ps[-9:]
        for i, c in enumerate(tail):
            for d in tail[i + 1:]:
                res.append((sh, chunks(ts, [c, d]), m, True))
        # input that ends before the blank line
        for c in ps:
            if c[0] < len(ts) - 2 and c != (len(ts) - 2, 0) and not (c[0] == len(ts) - 3 and c[1] >= 4):
                res.append((sh, chunks(ts, [c])[:1], m, False))
                if n == 1 and c != ps[0]:
                    res.append((sh, [x for x in chunks(ts, [ps[len(ps) // 3], c])[:2] if x is not const("")] if c > ps[len(ps) // 3] else chunks(ts, [c])[:1], m, False))
    return res


def decide(ck, pid):
    todo = scenarios(ck, pid)
    def some(batch):
        for sh, script, m, good in batch:
            check(ck, pid, sh, script, m, good, None)
    n = 8
    ck.spread([todo[i::n] for i in range(n)], some)


@rule("C24", title="Every header line is kept under its name, in order, or the request is refused",
      what="texts of known structure and unknown content, every place a read can cut them; the parsed headers and the rest of the "
           "stream are compared with the structure, for every way the names can coincide",
      note="Requests have a known structure (number of header lines and of request line parts, where the reads cut it) and unknown "
      "content of unknown length; loops over lines and reads are unrolled along that structure, so blocks of more than three header "
      "lines and more than three reads are not covered. What cannot be followed is reported as not covered, never as an alarm.")
def c24(ck):
    decide(ck, "C24")


@rule("C35", title="Scheme, host, port, method and path reported are those of the request",
      what="texts of known structure and unknown content; the values reported are compared with a reference model that is "
           "interpreted by the same analysis",
      note="Requests have a known structure (number of header lines and of request line parts, where the reads cut it) and unknown "
      "content of unknown length; loops over lines and reads are unrolled along that structure, so blocks of more than three header "
      "lines and more than three reads are not covered. What cannot be followed is reported as not covered, never as an alarm.")
def c35(ck):
    decide(ck, "C35")


@rule("C23", title="Only a syntactically valid host is ever reported",
      what="texts of known structure and unknown content: the host and the port reported are constants of the right form or what a reference "
           "model cuts out of a text that the source has matched with a pattern whose language is part of the model's (inclusion of automata)",
      note="The Host value, and the authority of an absolute URI, are of unknown content and length. What cannot be followed is reported as not "
      "covered, never as an alarm.")
def c23(ck):
    decide(ck, "C23")
    ck.minimum("a valid host or none", 2)
