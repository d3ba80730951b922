"""C15, C16, C17: the multi-value containers against a plain dictionary of lists."""
from harness import *

MVD = "utils.datastructures.MultiValueDict"


def multi(ck, e, st, q=None, base=None, attrs=None):
    """a multi-value dictionary with any content"""
    d = e.lazy_inst(st, q or ck.cls(MVD), "dict", attrs, base=base)
    st.mut(d).x = "lists"
    return d


def plain(st, base):
    return st.new(Obj("dict", ent={}, base=base, x="lists"), "plain")


def query(ck, e, st, base=None, mutable=None, ent=None):
    """a query dictionary with any content of text keys and values"""
    d = multi(ck, e, st, ck.cls("http.request.QueryDict"), base)
    m = st.mut(d)
    cfg = e.lazy_inst(st, ck.cls("conf.settings.Settings"), "settings",
                      {"DEFAULT_CHARSET": const("utf-8"), "DATA_UPLOAD_MAX_NUMBER_FIELDS": const(1000)})
    m.attrs.update({"settings": cfg, "_encoding": const("utf-8")})
    return d


def two(ck, e, st, site, q=None):
    """a dictionary of exactly two keys with any lists, as multi-value and as plain dictionary"""
    ks = [S(site + "_key%d" % i, "unicode") for i in (0, 1)]
    segs = [S(site + "_values%d" % i, None, ("elems", "unicode")) for i in (0, 1)]
    out = []
    for x in (0, 1):
        ent = {}
        for k, v in zip(ks, segs):
            ent[k] = st.new(Obj("list", seq=(("seg", v),)), (site, x, k))
        if x == 0:
            d = query(ck, e, st) if q == ck.cls("http.request.QueryDict") else e.lazy_inst(st, q or ck.cls(MVD), site)
            m = st.mut(d)
            m.ent, m.base, m.x = ent, None, "lists"
        else:
            d = st.new(Obj("dict", ent=ent, base=None, x="lists"), (site, x))
        out.append(d)
    st = e.assume(st, e.cmp_eq(st, ks[0], ks[1]), False)
    return st, out[0], out[1]


def method(ck, name, spec, *args, **opts):
    """one method of MultiValueDict against its model, on a dictionary with any content"""
    kw = opts.get("kw", {})
    e = ck.engine(keep=True)
    st = e.start()
    base = S("store")
    d, D = multi(ck, e, st, base=base), plain(st, base)
    args = [a(st) if callable(a) else a for a in args]
    f = T("bound", ck._lk.lookup(ck.cls(MVD), name)[1], d) if opts.get("direct") else None
    ps = method_paths(ck, e, st, d, name, args, kw)
    ck.refine(e, ps, ck.spec("containers." + spec), [D] + args, "value", "MultiValueDict." + name, kw=kw, pairs=[(d, D)],
              eq=opts.get("eq"))


def method_paths(ck, e, st, d, name, args, kw=None):
    """all outcomes of d.name(*args)"""
    n = len(e.exc)
    outs = []
    for s, f in e.getattr(st, d, name, None):
        outs += e.call(s, f, tuple(args), dict(kw or {}), None)
    res = [Path("ret", s, v, None, e) for s, v in outs] + [Path("exc", s, x, e.excclass(s, x), e) for s, x in e.exc[n:]]
    del e.exc[n:]
    ck.npaths += len(res)
    return res


@rule("C17", what="Every outcome of every accessor of MultiValueDict, on a dictionary with any content, is compared with a reference model "
                  "over a plain dictionary of lists: returned value, exception and resulting content.",
      assumes=["update is decided for arguments of up to two keys"])
def c17(ck):
    k = lambda: S("key", "str")
    v = lambda: S("value")
    alist = lambda st: st.new(Obj("list", seq=(("seg", S("items")),)), "given")
    method(ck, "__getitem__", "getitem", k())
    method(ck, "get", "get", k())
    method(ck, "get", "get", k(), v())
    method(ck, "getlist", "getlist", k())
    method(ck, "getlist", "getlist", k(), alist)
    method(ck, "__setitem__", "setitem", k(), v())
    for x in (NONE, alist, S("one", "str")):
        method(ck, "setlist", "setlist", k(), x)
        method(ck, "setlistdefault", "setlistdefault", k(), x)
    method(ck, "setdefault", "setdefault", k())
    method(ck, "setdefault", "setdefault", k(), v())
    method(ck, "appendlist", "appendlist", k(), v())
    method(ck, "__contains__", "contains", k())
    for nk in (0, 1, 2):
        for kind in ("lists", "plain", "kwargs"):
            updates(ck, nk, kind)
    for name, spec in (("items", "items"), ("values", "values"), ("lists", "lists"), ("dict", "as_dict"), ("keys", "keys"),
                       ("__iter__", "keys")):
        views(ck, name, spec)
    ck.minimum("value", 40)


def updates(ck, nk, kind):
    """update with nk keys: of a multi-value dictionary, a plain one, or keyword arguments"""
    e = ck.engine(keep=True)
    st = e.start()
    base = S("store")
    d, D = multi(ck, e, st, base=base), plain(st, base)
    if kind == "lists":
        st, o, O = two(ck, e, st, "other")
        if nk < 2:
            for x in (o, O):
                m = st.mut(x)
                m.ent = dict(list(m.ent.items())[:nk])
        ck.refine(e, method_paths(ck, e, st, d, "update", [o]), ck.spec("containers.update_lists"), [D, O], "value",
                  "MultiValueDict.update", pairs=[(d, D), (o, O)])
        return
    vals = [S("value%d" % i) for i in range(nk)]
    if kind == "kwargs":
        kw = {"k%d" % i: x for i, x in enumerate(vals)}
        ck.refine(e, method_paths(ck, e, st, d, "update", [], kw), ck.spec("containers.update"), [D], "value",
                  "MultiValueDict.update", kw=kw, pairs=[(d, D)])
        return
    ks = [S("key%d" % i, "str") for i in range(nk)]
    if nk == 2:
        st = e.assume(st, e.cmp_eq(st, ks[0], ks[1]), False)
    o = st.new(Obj("dict", ent=dict(zip(ks, vals))), "other")
    ck.refine(e, method_paths(ck, e, st, d, "update", [o]), ck.spec("containers.update"), [D, o], "value",
              "MultiValueDict.update", pairs=[(d, D)])


def views(ck, name, spec):
    e = ck.engine(keep=True)
    st, d, D = two(ck, e, e.start(), "dict")
    src = {"dict": "d.dict()", "__iter__": "list(d)"}.get(name, "list(d.%s())" % name)
    ps = ck.script(e, st, src, {"d": d})
    ck.refine(e, ps, ck.spec("containers." + spec), [D], "value", "MultiValueDict." + name, pairs=[(d, D)])


# ------------------------------------------------------------------------------------------ copies (C16)
KINDS = ("MultiValueDict", "ImmutableMultiValueDict", "QueryDict")


def kind(ck, n):
    return ck.cls(("http.request." if n == "QueryDict" else "utils.datastructures.") + n)


def lists_of(st, d):
    return {v for v in st.get(d).ent.values() if st.get(v) is not None}


@rule("C16", what="Every path of copy, deepcopy, getlist, setlist and the pickling methods of the three multi-value dictionaries: no list "
                  "object is shared, the copy has the keys and lists of the original, in order, and the original is unchanged.",
      assumes=["copies are decided for dictionaries of two keys with lists of any length"])
def c16(ck):
    for n in KINDS:
        q = kind(ck, n)
        for src in ("d.copy()", "copy.copy(d)", "copy.deepcopy(d)"):
            e = ck.engine(keep=True)
            e.maps = True
            st, d, D = two(ck, e, e.start(), "dict", q)
            if n != "MultiValueDict":
                st.mut(d).attrs["_mutable"] = FALSE
            c = "%s: %s" % (n, src)
            for p in ck.script(e, st, src, {"d": d, "copy": T("ext", "copy")}):
                if not ck.need("copy", p.kind == "ret", c, "raises %s" % p.exc, p.st):
                    continue
                o = p.st.get(p.v)
                if not ck.need("copy", o is not None and p.v is not d and o.cls is p.st.get(d).cls and o.ent is not None, c,
                               "gives %s instead of a new %s" % (show(p.v), n), p.st):
                    continue
                m = p.v
                ck.need("copy", m is not None and ck.samemap(e, p.st, m, D), c, "the copy holds %s instead of %s"
                        % (vshow(p.st, p.v), vshow(p.st, D)), p.st)
                ck.need("copy", ck.samemap(e, p.st, d, D), c, "copying changes the original to %s" % vshow(p.st, d), p.st)
                ck.need("shared", not lists_of(p.st, p.v) & lists_of(p.st, d), c, "the copy shares a value list with the original", p.st)
                if n == "QueryDict":
                    for r in ck.script(e, p.st, "c.__setitem__(k, v)", {"c": p.v, "k": S("k", "unicode"), "v": S("v", "unicode")}):
                        ck.need("mutable-copy", r.kind == "ret", c, "the copy of a query dictionary refuses changes (%s)" % r.exc, r.st)
        # values that are themselves changeable
        if n != "QueryDict":
            e = ck.engine(keep=True)
            st, d, D = two(ck, e, e.start(), "dict", q)
            inner = st.new(Obj("list", seq=(("seg", S("inner")),)), "inner")
            st.mut(next(iter(lists_of(st, d)))).seq = (("one", inner),)
            for p in ck.script(e, st, "copy.deepcopy(d)", {"d": d, "copy": T("ext", "copy")}):
                ok = p.kind == "ret" and p.st.get(p.v) is not None and not any(
                    x is inner for v in lists_of(p.st, p.v) for _, x in p.st.get(v).seq)
                ck.need("shared", ok, n + ": deepcopy", "a deep copy shares a value with the original", p.st)
        e = ck.engine(keep=True)
        e.maps = True
        st = e.start()
        base = S("store")
        d = query(ck, e, st, base) if n == "QueryDict" else multi(ck, e, st, q, base)
        k, given = S("key", "unicode"), st.new(Obj("list", seq=(("seg", S("items", None, ("elems", "unicode"))),)), "given")
        if n != "MultiValueDict":
            st.mut(d).attrs["_mutable"] = TRUE
        for p in ck.script(e, st, "d.getlist(k)", {"d": d, "k": k}):
            ck.need("shared", p.kind == "ret" and p.st.get(p.v) is not None and p.v not in lists_of(p.st, d), n + ".getlist",
                    "hands out the list it stores", p.st)
        for f in ("setlist", "setlistdefault"):
            for p in ck.script(e, st, "d.%s(k, given)" % f, {"d": d, "k": k, "given": given}):
                ck.need("shared", p.kind == "ret" and given not in lists_of(p.st, d), "%s.%s" % (n, f), "stores the caller's own list", p.st)
                ck.need("shared", p.st.get(given).seq == st.get(given).seq, "%s.%s" % (n, f), "changes the caller's list", p.st)
        # pickling
        e = ck.engine(keep=True)
        e.maps = True
        st, d, D = two(ck, e, e.start(), "dict", q)
        for p in ck.script(e, st, "d.__getstate__()['_data']", {"d": d}):
            o = p.st.get(p.v) if p.kind == "ret" else None
            ck.need("pickle", o is not None and o.ent is not None and ck.samemap(e, p.st, p.v, D), n + ".__getstate__",
                    "the pickling state is %s" % (vshow(p.st, p.v) if p.kind == "ret" else "not given: raises " + p.exc), p.st)
        if n != "QueryDict":
            new = e.lazy_inst(st, q, "new")
            m = st.mut(new)
            m.ent, m.base, m.x = {}, None, "lists"
            for p in ck.script(e, st, "new.__setstate__(d.__getstate__())", {"d": d, "new": new}):
                ck.need("pickle", p.kind == "ret" and ck.samemap(e, p.st, new, D), n + ".__setstate__",
                        "restores %s" % (vshow(p.st, new) if p.kind == "ret" else "nothing: raises " + p.exc), p.st)
    ck.minimum("copy", 20)
    ck.minimum("shared", 15)
    ck.minimum("pickle", 5)


# ------------------------------------------------------------------------------------------ immutability (C15)
MUTATORS = [("__setitem__", "d[k] = v"), ("__delitem__", "del d[k]"), ("clear", "d.clear()"),
            ("pop", "d.pop(k)"), ("pop", "d.pop(k, v)"), ("popitem", "d.popitem()"), ("setdefault", "d.setdefault(k, v)"),
            ("setdefault", "d.setdefault(k)"),
            ("update", "d.update(one)"), ("update", "d.update(lists)"), ("update", "d.update(a=v)"), ("setlist", "d.setlist(k, items)"),
            ("setlistdefault", "d.setlistdefault(k, items)"), ("setlistdefault", "d.setlistdefault(k)"), ("appendlist", "d.appendlist(k, v)")]
LISTM = [("__setitem__", "d[i] = v"), ("__delitem__", "del d[i]"), ("__setslice__", "d.__setslice__(i, i, items)"),
         ("__delslice__", "d.__delslice__(i, i)"), ("__iadd__", "d += items"), ("__iadd__", "d += (v,)"), ("__imul__", "d *= i"),
         ("append", "d.append(v)"), ("extend", "d.extend(items)"), ("insert", "d.insert(i, v)"), ("pop", "d.pop()"), ("pop", "d.pop(i)"),
         ("remove", "d.remove(v)"), ("sort", "d.sort()"), ("reverse", "d.reverse()"), ("sort", "d.sort(key=v)")]


def mutenv(ck, e, st, d):
    k, v = S("k", "unicode"), S("v", "unicode")
    st, o, O = two(ck, e, st, "other")
    return st, {"d": d, "k": k, "v": v, "i": S("i", "int"),
                "items": st.new(Obj("list", seq=(("seg", S("items", None, ("elems", "unicode"))),)), "items"),
                "one": st.new(Obj("dict", ent={k: v}), "one"), "lists": o, "none": st.new(Obj("dict", ent={}), "none")}


def twin(st, d, site="twin"):
    """a plain dictionary with the same content"""
    o = st.get(d)
    ent = {k: (st.new(Obj("list", seq=st.get(v).seq), (site, k)) if st.get(v) is not None and st.get(v).seq is not None else v)
           for k, v in o.ent.items()}
    return st.new(Obj("dict", ent=ent, base=o.base, x=o.x), site)


def refuses(ck, e, st, d, n):
    D = twin(st, d)
    st, env = mutenv(ck, e, st, d)
    for name, src in MUTATORS:
        for p in ck.script(e, st, src, env):
            c = "%s.%s" % (n, name)
            ck.need("refused", p.kind == "exc" and excname(p.exc) == "AttributeError", c, "an immutable %s %s instead of raising "
                    "AttributeError" % (n, "raises %s" % p.exc if p.kind == "exc" else "accepts %s" % src), p.st)
            ck.need("unchanged", ck.samemap(e, p.st, d, D), c, "the refused operation leaves the content %s" % vshow(p.st, d), p.st)
    for src in ("d.update()", "d.update(none)"):
        for p in ck.script(e, st, src, env):
            ck.need("refused", p.kind == "ret" or excname(p.exc) == "AttributeError", n + ".update", "raises %s" % p.exc, p.st)
            ck.need("unchanged", ck.samemap(e, p.st, d, D), n + ".update", "the operation leaves the content %s" % vshow(p.st, d), p.st)


@rule("C15", what="Every mutator of the dict and list interfaces, on an immutable instance with any content, raises AttributeError on every "
                  "path and leaves the content as it was; on a mutable instance every outcome is that of the base class.")
def c15(ck):
    new = lambda e, st: st.new(Obj("dict", ent={}, base=S("store"), x="lists"), "content")
    for n, q in (("ImmutableMultiValueDict", kind(ck, "ImmutableMultiValueDict")), ("QueryDict", kind(ck, "QueryDict"))):
        e = ck.engine(keep=True)
        e.maps = True
        st = e.start()
        cfg = e.lazy_inst(st, ck.cls("conf.settings.Settings"), "settings",
                          {"DEFAULT_CHARSET": const("utf-8"), "DATA_UPLOAD_MAX_NUMBER_FIELDS": const(1000)})
        srcs = ["C(content)", "C()"] if n != "QueryDict" else ["C(cfg)", "C(cfg, q)", "C(cfg, q, False)", "C(cfg, mutable=False)",
                                                               "C.fromkeys([k, v], v)"]
        env = {"C": T("cls", q), "content": new(e, st), "cfg": cfg, "q": S("query", "unicode"), "k": S("k", "unicode"), "v": S("v", "unicode")}
        for src in srcs:
            rets = [p for p in ck.script(e, st, src, env) if p.kind == "ret"]
            for p in sorted(rets, key=lambda p: vshow(p.st, p.v))[:3]:
                e.steps = 0
                refuses(ck, e, p.st, p.v, n)
        d = query(ck, e, st, S("store")) if n == "QueryDict" else multi(ck, e, st, q, S("store"))
        st.mut(d).attrs["_mutable"] = FALSE
        refuses(ck, e, st, d, n)
        # a mutable instance behaves like the base class
        for name, src in MUTATORS:
            e = ck.engine(keep=True)
            e.maps = True
            st, base = e.start(), S("store")
            d = query(ck, e, st, base) if n == "QueryDict" else multi(ck, e, st, q, base)
            st.mut(d).attrs["_mutable"] = TRUE
            b = multi(ck, e, st, kind(ck, "MultiValueDict"), base)
            st, env = mutenv(ck, e, st, d)
            for p in ck.script(e, st, src, env):
                if name == "popitem":
                    ck.need("as-base", p.kind == "ret" or excname(p.exc) == "KeyError", "%s.%s" % (n, name), "raises %s" % p.exc, p.st)
                    continue
                for w in ck.script(e, p.st, src, dict(env, d=b)):
                    ok = p.kind == w.kind and (excname(p.exc) == excname(w.exc) if p.kind == "exc" else
                                               ck.same(e, w.st, p.v, w.v))
                    ck.need("as-base", ok, "%s.%s" % (n, name), "a mutable instance %s where the base class %s"
                            % (outcome(p.kind, p.v, p.exc), outcome(w.kind, w.v, w.exc)), w.st)
                    ck.need("as-base", ck.samemap(e, w.st, d, b), "%s.%s" % (n, name),
                            "a mutable instance becomes %s where the base class becomes %s" % (vshow(w.st, d), vshow(w.st, b)), w.st)
    for warn in ("C(content)", "C(content, warning=w)"):
        e = ck.engine(keep=True)
        st = e.start()
        env = {"C": T("cls", ck.cls("utils.datastructures.ImmutableList")), "w": S("w", "str"),
               "content": st.new(Obj("list", seq=(("seg", S("content")),)), "content")}
        for p in ck.script(e, st, warn, env):
            if not ck.need("refused", p.kind == "ret", "ImmutableList", "cannot be created: raises %s" % p.exc, p.st):
                continue
            o = p.st.get(p.v)
            ck.need("unchanged", o is not None and o.seq == (("seg", env["content"]),) or o is not None and ck.sameseq(
                e, p.st, o.seq, p.st.get(env["content"]).seq), "ImmutableList", "holds %s" % vshow(p.st, p.v), p.st)
            s2, menv = mutenv(ck, e, p.st, p.v)
            for name, src in LISTM:
                for r in ck.script(e, s2, src, menv):
                    ck.need("refused", r.kind == "exc" and excname(r.exc) == "AttributeError", "ImmutableList.%s" % name,
                            "%s instead of raising AttributeError" % outcome(r.kind, r.v, r.exc), r.st)
                    ck.need("unchanged", r.st.get(p.v).seq == o.seq, "ImmutableList.%s" % name, "the content becomes %s" % vshow(r.st, p.v), r.st)
    ck.minimum("refused", 60)
    ck.minimum("as-base", 20)
