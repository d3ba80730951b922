"""Python 2.7 library semantics the package relies on: strings, containers, iteration, files, re, six ..."""
import posixpath
import texts
import ast
from terms import T, Term, app, const, NONE, TRUE, FALSE, ZERO, ONE, show, ladd, lscale, lconst, lkey
from state import (State, Obj, ABSENT, typeof, isstr, STRISH, fresh, lin, mkint, lenof, seqlen, mkslice, mkcat, flat, subst,
                   lsubst, subterms, entails, entails_eq, add_lin)
from prog import PY2_EXC, EXC_ALIAS

TEXT_CODECS = {"ascii", "utf-8", "utf8", "latin-1", "latin1", "iso-8859-1", "us-ascii", "utf_8", "utf-16", "cp1252"}


def canon(n):
    if n.startswith("future.backports.urllib.parse."):
        return "fparse." + n[30:]
    for p in ("exceptions.", "__builtin__.", "builtins."):
        if n.startswith(p):
            return n[len(p):]
    return {"io.open": "open", "six.moves.cStringIO": "io.BytesIO", "cStringIO.StringIO": "io.BytesIO",
            "StringIO.StringIO": "io.BytesIO", "os.error": "OSError", "os.errno": "errno",
            "future.backports.urllib.parse": "fparse", "io.IOBase": "object"}.get(n, n)


_BT = ("dict", "list", "tuple", "str", "unicode", "object", "set", "int", "Exception")


CONSTS = {"os.curdir": ".", "os.pardir": "..", "os.sep": "/", "os.path.sep": "/", "os.path.curdir": ".", "os.path.pardir": "..", "os.extsep": ".",
          "os.SEEK_SET": 0, "os.SEEK_CUR": 1, "os.SEEK_END": 2, "string.digits": "0123456789", "os.linesep": "\n",
          "string.ascii_lowercase": "abcdefghijklmnopqrstuvwxyz", "string.ascii_uppercase": "ABCDEFGHIJKLMNOPQRSTUVWXYZ",
          "string.ascii_letters": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", "string.hexdigits": "0123456789abcdefABCDEF",
          "string.octdigits": "01234567", "string.whitespace": "\t\n\x0b\x0c\r "}


def ext_attr(d, name):
    if d + "." + name in CONSTS:
        return const(CONSTS[d + "." + name])
    if d in _BT or d in PY2_EXC:
        if name == "__name__":
            return const(d)
        return T("extattr", d, name)
    if d in ("os",) and name == "name":
        return const("java")
    return T("ext", canon(d + "." + name))


_PY2X = {
    "dict": {"has_key", "iteritems", "iterkeys", "itervalues", "viewitems", "viewkeys", "viewvalues", "__cmp__"},
    "str": {"decode", "__getslice__"}, "list": {"__getslice__", "__setslice__", "__delslice__"},
    "tuple": {"__getslice__"}, "set": {"__cmp__"}, "int": {"__div__"},
}
_PY3ONLY = {"str": {"casefold", "isidentifier", "isprintable", "maketrans", "format_map", "isascii", "removeprefix", "removesuffix"},
            "list": {"clear", "copy"}, "int": {"to_bytes", "from_bytes"}, "dict": set(), "tuple": set(), "set": set()}
_KIND = {"dict": dict, "list": list, "tuple": tuple, "str": str, "set": set, "int": int, "bool": bool, "float": float}


def type_has(kind, name):
    k = {"unicode": "str", "text": "str"}.get(kind, kind)
    if k == "none":
        return name in ("__class__", "__doc__")
    py = _KIND.get(k)
    if py is None:
        return True
    kk = "int" if k == "bool" else k
    if name in _PY2X.get(kk, ()):
        return True
    if name in _PY3ONLY.get(kk, ()):
        return False
    if name in ("__bool__", "__next__"):
        return False
    return hasattr(py, name)


def ext_base_has(base, name):
    if base in PY2_EXC or EXC_ALIAS.get(base, base) in PY2_EXC:
        return name in ("__init__", "__str__", "__repr__", "__unicode__", "__reduce__", "__setstate__", "__getitem__", "__new__",
                        "__setattr__", "__getattribute__", "__delattr__")
    if base in ("dict", "list", "tuple", "set", "str", "unicode", "int"):
        return type_has(base, name) and name not in ("__class__", "__doc__", "__dict__", "__hash__")
    if base == "object":
        return name in ("__init__", "__new__", "__setattr__", "__getattribute__", "__delattr__", "__repr__", "__str__", "__hash__",
                        "__reduce__", "__reduce_ex__", "__class__", "__format__", "__sizeof__", "__subclasshook__")
    return False


_METH = set("""append extend insert pop remove sort reverse popitem clear update setdefault copy keys values items get has_key
iteritems iterkeys itervalues decode encode find rfind split rsplit strip lstrip rstrip lower upper replace startswith endswith join
format count index splitlines isdigit partition rpartition translate title ljust rjust zfill isspace isalpha isalnum next __next__
read readline readlines write writelines close seek tell flush fileno truncate match search sub findall finditer group groups
groupdict start end span send throw add discard new_file receive_data_chunk file_complete upload_complete handle_raw_input unget
utctimetuple timetuple __enter__ __exit__ __iter__ __call__ __getitem__ __setitem__ __contains__ __deepcopy__ __copy__ isatty
chunks getlist setlist appendlist lists with_traceback fetchall""".split())


def looks_method(name):
    return name in _METH


FILEOPS = {"read", "readline", "readlines", "write", "writelines", "close", "seek", "tell", "flush", "truncate", "fileno", "isatty",
           "next", "readinto", "unlink"}
PURE = {  # external functions without effects: result type
    "id": "int", "hash": "int", "ord": "int", "abs": "int", "calendar.timegm": "int", "binascii.crc32": "int",
    "email.utils.formatdate": "str", "unicodedata.category": "str", "locale.getdefaultlocale": None,
    "os.path.normpath": "text", "os.path.dirname": "text", "os.path.abspath": "text", "os.path.realpath": "text",
    "os.path.isabs": "bool", "os.path.isdir": "bool", "os.path.exists": "bool", "os.path.isfile": "bool", "os.path.islink": "bool",
    "os.getcwd": "str", "tempfile.gettempdir": "str", "inspect.currentframe": None, "inspect.getframeinfo": None,
    "callable": "bool", "issubclass": "bool", "repr": "str", "time.time": "float", "warnings.warn": "none", "round": "float",
    "float": "float", "vars": None, "dir": "list", "locals": None, "globals": None, "hex": "str", "oct": "str", "os.urandom": "str",
    "slice": None, "buffer": None, "memoryview": None, "bytearray": None, "os.path.expanduser": "text", "os.path.split": None,
    "sys.getdefaultencoding": "str", "sys.exc_info": None, "object": None, "fparse.urlsplit": None, "fparse.urljoin": "text",
    "os.access": "bool", "os.getpid": "int", "os.stat": None, "threading.Lock": None, "uuid.uuid4": None,
}
_UNSET = object()


def kwflat(kw):
    out = []
    for k in sorted(kw):
        out += ["%s=" % k, kw[k]]
    return out


BV = T("sym", "#bv", "#", None, ())


def bv(d):
    return T("sym", "#bv%d" % d, "#%d" % d, None, ())


class Models:
    # ---------------------------------------------------------------------------------- sequences
    def seq_of(self, st, v):
        """segments of a sequence value, or None"""
        if v.k == "tup":
            return tuple(("one", x) for x in v.a)
        o = st.get(v)
        if o is not None:
            return o.seq
        ty = typeof(st, v)
        if ty in ("list", "tuple", "seq"):
            return (("seg", v),)
        return None

    def exact_items(self, st, v):
        """the elements of v when all are known"""
        if v.k == "tup":
            return list(v.a)
        o = st.get(v)
        if o is None:
            return None
        if o.seq is not None:
            if all(k == "one" for k, _ in o.seq):
                return [x for _, x in o.seq]
            return None
        if o.ent is not None and o.base is None and o.kind == "dict":
            return [k for k, x in o.ent.items() if x is not ABSENT]
        if o.kind == "gen" and o.x and o.x[0] == "view" and st.get(o.x[2]) is not None:
            d = st.get(o.x[2])
            if d.ent is not None and d.base is None:
                es = [(k, x) for k, x in d.ent.items() if x is not ABSENT]
                return [k if o.x[1] == "keys" else (x if o.x[1] == "values" else T("tup", k, x)) for k, x in es]
        return None

    def seq_item(self, st, seq, idx):
        """element at a (possibly symbolic) index; the caller has checked the range"""
        if idx.k == "c" and isinstance(idx.a[1], int):
            i = idx.a[1]
            if i >= 0 and all(k == "one" for k, _ in seq[:i + 1]) and i < len(seq):
                return seq[i][1]
            if i < 0 and all(k == "one" for k, _ in seq[i:]) and -i <= len(seq):
                return seq[i][1]
        if len(seq) == 1 and seq[0][0] == "seg":
            g = seq[0][1]
            if g.k == "sym" and len(g.a) > 3 and g.a[3] and g.a[3][0] == "rep":
                return g.a[3][1]
            if g.k == "app" and g.a[0] == "split" and len(g.a) == 3 and g.a[2].k == "c" and idx.k == "c" and idx.a[1] == -1:
                return mkslice(g.a[1], mkint(ladd(ladd({app("rfind", g.a[1], g.a[2]): 1}, lenof(g.a[2])), lconst(0))), NONE) \
                    if len(g.a[2].a[1]) == 1 else app("elemat", g, idx)
            return self.typed_elem(st, g, app("elemat", g, idx))
        if len(seq) and all(k == "one" and x is seq[0][1] for k, x in seq):
            return seq[0][1]
        return app("elemat", app("listc", *[app(k, x) for k, x in seq]), idx)

    def elem_type(self, g):
        """type of the elements of a segment, when known from where it came"""
        if g.k == "sym" and len(g.a) > 3 and isinstance(g.a[3], tuple) and len(g.a[3]) > 1 and g.a[3][0] == "elems":
            return g.a[3][1]
        if g.k == "app" and g.a[0] in ("split", "wsplit", "splitlines"):
            return "strof"
        if g.k == "app" and g.a[0] == "range":
            return "int"
        return None

    def typed_elem(self, st, g, x):
        t = self.elem_type(g)
        if t == "strof":
            t = typeof(st, g.a[1]) or "text"
        if isinstance(t, str) and typeof(st, x) is None:
            st.facts[app("typ", x)] = t
        return x

    def elem(self, st, g, idx=None):
        """a fresh arbitrary element of segment g"""
        h = getattr(self.rule, "make_elem", None)
        if h is not None:
            x = h(self, st, g)
            if x is not None:
                return x
        t = self.elem_type(g)
        if t == "strof":
            t = typeof(st, g.a[1]) or "text"
        x = fresh("elem", t if isinstance(t, str) else None, ("elem", g))
        if g.k == "app" and g.a[0] == "range":
            add_lin(st, lin(x))
            add_lin(st, ladd(ladd(lin(g.a[1]), lin(x), -1), lconst(-1)))
        if g.k == "app" and g.a[0] == "keys":
            st.facts[app("has", g.a[1], x)] = True
        return x

    # ---------------------------------------------------------------------------------- mappings
    def keyrel(self, st, k, k2):
        """are two keys equal?  TRUE / FALSE / term"""
        e = self.cmp_eq(st, k, k2)
        if e.k == "c":
            return e
        f = st.facts.get(e)
        if f is not None:
            return TRUE if f else FALSE
        d = self.decide(st, e)
        return e if d is None else (TRUE if d else FALSE)

    def dict_lookup(self, st, d, k):
        """[(state, value or ABSENT, key used)]"""
        o = st.get(d)
        if k in o.ent:
            return [(st, o.ent[k])]
        outs, cur = [], [st]
        for k2, v2 in list(o.ent.items()):
            nxt = []
            for s in cur:
                e = self.keyrel(s, k, k2)
                if e is TRUE:
                    outs.append((s, v2))
                elif e is FALSE:
                    nxt.append(s)
                else:
                    a, b = self.split(s, e)
                    outs += [(x, v2) for x in a]
                    nxt += b
            cur = nxt
        for s in cur:
            o = s.get(d)
            if o.base is None:
                outs.append((s, ABSENT))
                continue
            if o.base.k == "c":
                outs.append((s, o.base))
                continue
            a, b = self.split_atom(s, app("has", o.base, k))
            for x in a:
                v = self.base_value(x, d, o, k)
                outs.append((x, v))
            outs += [(x, ABSENT) for x in b]
        return outs

    def base_value(self, st, d, o, k):
        h = getattr(self.rule, "make_value", None)
        if h is not None:
            v = h(self, st, d, o, k)
            if v is not None:
                st.mut(d).ent[k] = v
                return v
        it = app("item", o.base, k)
        if o.x == "lists":
            full = o.base.k == "sym" and len(o.base.a) > 3 and o.base.a[3] and o.base.a[3][0] == "filled"
            if full:
                # no list in it is empty, and it holds texts
                it = fresh("values", None, ("elems", "str"))
            v = st.new(Obj("list", seq=(("seg", it),)), ("mat", o.base, k))
            st.mut(d).ent[k] = v
            if full:
                add_lin(st, ladd(seqlen(st.get(v).seq)[0], lconst(-1)))
            return v
        b = o.base
        if b.k == "sym" and len(b.a) > 3 and b.a[3] and b.a[3][0] == "map" and b.a[3][2] is not None:
            st.facts[app("typ", it)] = b.a[3][2]
        return it

    def dict_has(self, st, d, k):
        o = st.get(d)
        if k in o.ent:
            return FALSE if o.ent[k] is ABSENT else TRUE
        t = app("has", o.base, k) if o.base is not None else FALSE
        for k2, v2 in o.ent.items():
            e = self.keyrel(st, k, k2)
            if e is TRUE:
                return FALSE if v2 is ABSENT else TRUE
            if e is FALSE:
                continue
            from engine import mk_or, mk_and, mk_not
            t = mk_or(e, t) if v2 is not ABSENT else mk_and(mk_not(e), t)
        return t

    def dict_set(self, st, d, k, v, node):
        """[states]"""
        self.rule.substore(self, st, d, k, v, node)
        self.check_hashable(st, k, node)
        o = st.get(d)
        if k in o.ent:
            st.mut(d).ent[k] = v
            return [st]
        outs, cur = [], [st]
        for k2 in list(o.ent):
            nxt = []
            for s in cur:
                e = self.keyrel(s, k, k2)
                if e is TRUE:
                    s.mut(d).ent[k2] = v
                    outs.append(s)
                elif e is FALSE:
                    nxt.append(s)
                else:
                    a, b = self.split(s, e)
                    for x in a:
                        x.mut(d).ent[k2] = v
                        outs.append(x)
                    nxt += b
            cur = nxt
        for s in cur:
            s.mut(d).ent[k] = v
            outs.append(s)
        return outs

    def dict_del(self, st, d, k, node, missing=True):
        self.rule.substore(self, st, d, k, ABSENT, node)
        outs = []
        for s, v in self.dict_lookup(st, d, k):
            if v is ABSENT:
                if missing:
                    self.throwx(s, "KeyError", node, k)
                continue
            m = s.mut(d)
            kk = k
            if k not in m.ent:
                for k2 in m.ent:
                    if self.keyrel(s, k, k2) is TRUE:
                        kk = k2
            if m.base is None:
                m.ent.pop(kk, None)
            else:
                m.ent[kk] = ABSENT
            outs.append((s, v))
        return outs

    def dict_method(self, st, d, name, args, kw, node):
        """methods of dict on the storage of d (a dict object or an instance with dict storage)"""
        o = st.get(d)
        A = list(args)
        if name in ("__init__", "update"):
            if A and A[0] is not None:
                src = A[0]
                so = st.get(src)
                if src.k == "tup" and not src.a:
                    pass
                elif so is not None and so.ent is not None:
                    if so.ent or so.base is not None:
                        self.rule.substore(self, st, d, NONE, NONE, node)
                    m = st.mut(d)
                    if name == "__init__" or not m.ent and m.base is None:
                        m.ent, m.base = dict(so.ent), so.base
                        if so.x == "lists" and m.x is None:
                            m.x = "lists"
                    elif so.base is None:
                        cur = [st]
                        for k, v in so.ent.items():
                            if v is not ABSENT:
                                cur = [y for x in cur for y in self.dict_set(x, d, k, v, node)]
                        return [(x, NONE) for x in cur]
                    else:
                        m.ent, m.base = {}, fresh("updated", None, ("upd", so.base))
                else:
                    items = self.exact_items(st, src)
                    self.rule.substore(self, st, d, NONE, NONE, node)
                    if items is not None and all(x.k == "tup" and len(x.a) == 2 for x in items):
                        cur = [st]
                        for it in items:
                            cur = [y for x in cur for y in self.dict_set(x, d, it.a[0], it.a[1], node)]
                        return [(x, NONE) for x in cur]
                    m = st.mut(d)
                    ob = st.get(src)
                    seq = self.seq_of(st, src)
                    m.ent, m.base = {}, (app("mapof", *[app(k, x) for k, x in seq]) if seq is not None and name == "__init__"
                                         else fresh("updated", None, ("upd", src)))
            cur = [st]
            for k, v in kw.items():
                if k in ("*", "**"):
                    continue
                cur = [y for x in cur for y in self.dict_set(x, d, const(k) if isinstance(k, str) else k, v, node)]
            return [(x, NONE) for x in cur]
        if name == "__getitem__":
            outs = []
            for s, v in self.dict_lookup(st, d, A[0]):
                if v is ABSENT:
                    self.throwx(s, "KeyError", node, A[0])
                else:
                    outs.append((s, v))
            return outs
        if name == "get":
            dflt = A[1] if len(A) > 1 else kw.get("default", NONE)
            return [(s, dflt if v is ABSENT else v) for s, v in self.dict_lookup(st, d, A[0])]
        if name == "__setitem__":
            return [(s, NONE) for s in self.dict_set(st, d, A[0], A[1], node)]
        if name == "__delitem__":
            return [(s, NONE) for s, _ in self.dict_del(st, d, A[0], node)]
        if name in ("__contains__", "has_key"):
            return [(st, self.dict_has(st, d, A[0]))]
        if name in ("keys", "iterkeys", "viewkeys", "__iter__"):
            return [(st, self.view(st, "keys", d, node))]
        if name in ("values", "itervalues", "viewvalues"):
            return [(st, self.view(st, "values", d, node))]
        if name in ("items", "iteritems", "viewitems"):
            return [(st, self.view(st, "items", d, node))]
        if name == "setdefault":
            outs = []
            dflt = A[1] if len(A) > 1 else NONE
            for s, v in self.dict_lookup(st, d, A[0]):
                if v is ABSENT:
                    outs += [(x, dflt) for x in self.dict_set(s, d, A[0], dflt, node)]
                else:
                    outs.append((s, v))
            return outs
        if name == "pop":
            outs = []
            for s, v in self.dict_lookup(st, d, A[0]):
                if v is ABSENT:
                    if len(A) > 1:
                        outs.append((s, A[1]))
                    else:
                        self.throwx(s, "KeyError", node, A[0])
                else:
                    outs += self.dict_del(s, d, A[0], node, False)
            return outs
        if name == "popitem":
            self.rule.substore(self, st, d, NONE, ABSENT, node)
            self.throwx(st.fork(), "KeyError", node, "popitem")
            m = st.mut(d)
            m.ent, m.base = {}, fresh("popped")
            return [(st, T("tup", fresh("key"), fresh("val")))]
        if name == "clear":
            self.rule.substore(self, st, d, NONE, ABSENT, node)
            m = st.mut(d)
            m.ent, m.base = {}, None
            return [(st, NONE)]
        if name == "copy":
            return [(st, st.new(Obj("dict", ent=dict(o.ent), base=o.base, x=o.x if o.x == "lists" else None), node))]
        if name == "__len__":
            if o.base is None:
                return [(st, const(sum(1 for v in o.ent.values() if v is not ABSENT)))]
            n = app("n", o.base)
            if o.ent:
                n = fresh("dlen", "int")
                add_lin(st, ladd({n: 1}, lconst(-sum(1 for v in o.ent.values() if v is not ABSENT))))
            return [(st, n)]
        if name in ("__repr__", "__str__"):
            return [(st, fresh("repr", "str"))]
        if name == "__eq__":
            return [(st, app("eq", d, A[0]))]
        return [(st, fresh("dict." + name))]

    def view(self, st, kind, d, node):
        return st.new(Obj("gen", x=("view", kind, d)), (id(node), kind))

    # ---------------------------------------------------------------------------------- iteration
    def iterate(self, st, it, body, node, brks=None):
        """run body(state, element) for every element; returns the states in which the iterator is exhausted"""
        if brks is None:
            brks = []
        self.sinks.append(brks)
        try:
            return self._iterate(st, it, body, node, brks)
        finally:
            self.sinks.pop()

    def _iterate(self, st, it, body, node, brks):
        cx = self.cx
        o = st.get(it)
        seq = self.seq_of(st, it)
        if o is not None and o.kind == "inst" and o.cls is not None and o.cls.k == "cls":
            r = self.lookup(o.cls.a[0], "__iter__")
            if r is not None and not isinstance(r[0], str):
                outs = []
                for s, v in self.call(st, T("bound", r[1], it), (), {}, node):
                    if v is it:
                        outs += self.iter_next(s, it, body, node, brks)
                    else:
                        outs += self._iterate(s, v, body, node, brks)
                return outs
            if o.ent is not None:
                return self.iter_map(st, "keys", it, body, node, brks)
            if seq is None:
                r = self.lookup(o.cls.a[0], "next")
                self.definite(st, node, "'%s' is not iterable" % self.vdesc(st, it))
                self.throwx(st, "TypeError", node)
                return []
        if seq is not None:
            cur = [st]
            if len(seq) > 12 and all(k == "one" for k, _ in seq):
                pass
            for k, x in seq:
                nxt = []
                for s in cur:
                    if k == "one":
                        nxt += self.with_loop_flow(lambda y: body(y, x), s, brks, cx)
                    else:
                        nxt += self.iter_seg(s, x, body, node, brks)
                cur = self.compact(nxt)
            return cur
        if o is not None and o.kind == "dict":
            return self.iter_map(st, "keys", it, body, node, brks)
        if o is not None and o.kind == "gen":
            return self.iter_gen(st, it, o, body, node, brks)
        if it.k == "c" and isinstance(it.a[1], str) and len(it.a[1]) <= 12:
            cur = [st]
            for ch in it.a[1]:
                cur = self.compact([z for s in cur for z in self.with_loop_flow(lambda y: body(y, const(ch, it.a[0])), s, brks, cx)])
            return cur
        ty = typeof(st, it)
        if it is NONE or ty in ("int", "bool", "none", "float") or it.k in ("func", "clo", "mod"):
            self.definite(st, node, "iterating over %s" % self.vdesc(st, it))
            self.throwx(st, "TypeError", node)
            return []
        if ty in STRISH:
            return self.iter_seg(st, app("chars", it), body, node, brks)
        if it.k == "obj" and o.kind == "inst" and o.cls is not None and o.cls.a[0].startswith("iter:"):
            return self.iter_next(st, it, body, node, brks)
        if it.k == "obj" and o.kind == "inst":
            # a file or an external object
            if self.io_raises:
                self.throwx(st.fork(), "IOError", node, "iterating a stream")
            return self.iter_seg(st, app("content", it), body, node, brks)
        return self.iter_seg(st, it, body, node, brks)

    def iter_seg(self, st, seg, body, node, brks):
        cx = self.cx
        # nothing to do when the segment is known to be empty
        n = {app("n", seg): 1}
        if entails(st, lscale(n, -1)):
            return [st]

        dry0, final, heads = self.dry, [], []

        def one(head, exits, bk):
            e = head.fork()
            exits.append(e)
            h = head
            if seg.k == "app" and seg.a[0] == "fmap":
                x = self.elem(h, seg.a[1])
                back = []
                for s, items in self.fmap_cases(h, seg, x):
                    cur = [s]
                    for k, y in items:
                        cur = [z for c in cur for z in (self.with_loop_flow(lambda w: body(w, y), c, bk, cx) if k == "one" else
                                                        self.iter_seg(c, y, body, node, bk))]
                    back += cur
                back = self.compact(back)
            else:
                x = self.elem(h, seg)
                back = self.with_loop_flow(lambda y: body(y, x), h, bk, cx)
            if self.dry == dry0:
                final.append((x, back))
                heads.append(e)
            return back
        lists = list({id(l): l for l in self.sinks + [self.exc] + ([cx.ret] if cx is not None else [])}.values())
        marks = [len(l) for l in lists]
        ex, br = self.fix(node, st, one)
        ex = self.quantify(seg, final, ex, [(br, 0)] + list(zip(lists, marks)))
        if self.maps:
            self.mapsum(seg, final, heads, ex, st, node)
        brks += br
        return ex

    def quantify(self, seg, final, exits, escapes):
        """a condition every element has to meet for the loop to go round holds of all elements when the loop
        ends, and fails for some element where the loop was left because of it"""
        Q = None
        for x, back in final:
            for b in back:
                q = set()
                for a, v in b.facts.items():
                    if a.k == "app" and a.a[0] not in ("typ", "val", "forall", "fails") and isinstance(v, bool) and x in subterms(a):
                        q.add((subst(a, {x: BV}), v))
                Q = q if Q is None else Q & q
        if not Q:
            return exits
        for lst, m in escapes:
            keep = []
            for it in lst[m:]:
                s = it[0] if isinstance(it, tuple) else it
                if all(self.assume(s, app("forall", seg, a, const(v)), False) is not None
                       for x, _ in final for a, v in Q if s.facts.get(subst(a, {BV: x})) is (not v)):
                    keep.append(it)
            lst[m:] = keep
        out = []
        for s in exits:
            ok = True
            for a, v in Q:
                if self.assume(s, app("forall", seg, a, const(v)), True) is None:
                    ok = False
            if ok:
                out.append(s)
        return out

    def mapsum(self, seg, final, heads, exits, st0, node):
        """a list that every round of the loop only appends to is a map of the segment: its content becomes a
        term fmap(segment, cases), a case being (facts, constraints, items) over the bound element"""
        if seg.k == "app" and seg.a[0] == "fmap":
            seg = seg.a[1]
        for oid, o0 in list(st0.heap.items()):
            if o0.kind not in ("list", "set") or o0.seq is None or not final:
                continue
            if not any(h.heap[oid].seq != o0.seq for h in heads if oid in h.heap):
                continue
            cases, ok = [], True
            for (x, back), h in zip(final, heads):
                hs = h.heap[oid].seq
                for b in back:
                    bs = b.heap[oid].seq
                    if bs is None or bs[:len(hs)] != hs:
                        ok = False
                        break
                    items = bs[len(hs):]
                    fs = [(a, v) for a, v in b.facts.items() if h.facts.get(a) is not v and x in subterms(a) and
                          not (a.k == "app" and a.a[0] == "typ")]
                    ls = [c for c in b.lin if c not in h.lin and any(a is not None and x in subterms(a) for a, _ in c)]
                    cases.append((x, fs, ls, items))
                if not ok:
                    break
            if not ok or not cases:
                continue
            used = set()
            for x, fs, ls, items in cases:
                for a, v in fs:
                    subterms(a, used)
                    if isinstance(v, Term):
                        subterms(v, used)
                for c in ls:
                    subterms(tuple(a for a, _ in c if a is not None), used)
                subterms(tuple(y for _, y in items), used)
            if any(t.k == "obj" and t.a[0] not in st0.heap or
                   t.k == "sym" and isinstance(t.a[0], tuple) and len(t.a[0]) > 1 and t.a[0][0] == "loop" and t.a[0][1] == id(node)
                   for t in used):
                continue
            d = 1
            while bv(d) in used:
                d += 1
            tab = []
            for x, fs, ls, items in cases:
                m = {x: bv(d)}
                tab.append(T("tup",
                             T("tup", *sorted((app("fact", subst(a, m), subst(v, m) if isinstance(v, Term) else const(v)) for a, v in fs), key=show)),
                             T("tup", *sorted((app("lin0", mkint(lsubst(dict(c), m))) for c in ls), key=show)),
                             T("tup", *[app(k, subst(y, m)) for k, y in items])))
            tab = sorted(set(tab), key=show)
            if len(tab) == 1 and tab[0].a[2].k == "tup" and tab[0].a[2].a == (app("one", bv(d)),):
                g = seg
            else:
                g = app("fmap", seg, bv(d), T("tup", *tab))
            for e in exits:
                if oid in e.heap:
                    e.mut(T("obj", oid)).seq = o0.seq + (("seg", g),)

    def fmap_cases(self, st, g, x):
        """[(state, items)]: the cases of a map segment for element x of its source"""
        out = []
        m = {g.a[2]: x}
        for c in g.a[3].a:
            s = st.fork()
            ok = True
            for f in c.a[0].a:
                v = f.a[2]
                if v.k == "c" and isinstance(v.a[1], bool):
                    ok = ok and self.assume(s, subst(f.a[1], m), v.a[1]) is not None
                else:
                    s.facts[subst(f.a[1], m)] = subst(v, m)
                if not ok:
                    break
            if ok:
                for l in c.a[1].a:
                    if not add_lin(s, lin(subst(l.a[1], m))):
                        ok = False
                        break
            if ok:
                out.append((s, [(i.a[0], subst(i.a[1], m)) for i in c.a[2].a]))
        return out

    def iter_next(self, st, it, body, node, brks):
        cx = self.cx
        self.custom.add(id(node))

        def one(head, exits, bk):
            saved, self.exc = self.exc, []
            try:
                outs = self.next_call(head, it, node)
            finally:
                mine, self.exc = self.exc, saved
            for s, e in mine:
                m = self.excmatch(s, e, T("ext", "StopIteration"))
                if m is True:
                    exits.append(s)
                else:
                    self.exc.append((s, e))
            back = []
            for s, v in outs:
                back += self.with_loop_flow(lambda y: body(y, v), s, bk, cx)
            return self.compact(back)
        ex, br = self.fix(node, st, one)
        brks += br
        return ex

    def next_call(self, st, it, node):
        o = st.get(it)
        if o is not None and o.kind == "inst" and o.cls.k == "cls":
            r = self.lookup(o.cls.a[0], "next")
            if r is None:
                self.definite(st, node, "%s has no next()" % self.vdesc(st, it))
                self.throwx(st, "TypeError", node)
                return []
            return self.call(st, T("bound", r[1], it), (), {}, node)
        return self.call_method(st, it, "next", (), {}, node)

    def iter_map(self, st, kind, d, body, node, brks):
        """keys / values / items of a mapping (order arbitrary)"""
        o = st.get(d)
        if o is None or o.ent is None:
            return self.iter_seg(st, app(kind, d), body, node, brks)
        cx = self.cx
        cur = [st]
        inst = o.kind == "inst"
        for k, v in list(o.ent.items()):
            if v is ABSENT:
                continue
            val = k if kind == "keys" else (v if kind == "values" else T("tup", k, v))
            cur = self.compact([z for s in cur for z in self.with_loop_flow(lambda y: body(y, val), s, brks, cx)])
        if o.base is not None:
            out = []
            ents = list(o.ent)
            for s in cur:
                def one(head, exits, bk):
                    exits.append(head.fork())
                    k = self.elem(head, app("keys", o.base))
                    head.facts[app("has", o.base, k)] = True
                    for k2 in ents:
                        e = self.cmp_eq(head, k, k2)
                        if e.k != "c":
                            head.facts.setdefault(e, False)
                    if kind == "keys":
                        vals = [(head, k)]
                    else:
                        vals = []
                        o2 = head.get(d)
                        if o2.base is o.base:
                            for h2, v in self.dict_lookup(head, d, k):
                                if v is not ABSENT:
                                    vals.append((h2, v if kind == "values" else T("tup", k, v)))
                        else:
                            v = app("item", o.base, k)
                            vals = [(head, v if kind == "values" else T("tup", k, v))]
                    back = []
                    for h2, v in vals:
                        back += self.with_loop_flow(lambda y: body(y, v), h2, bk, cx)
                    return self.compact(back)
                ex, br = self.fix(node, s, one)
                brks += br
                out += ex
            cur = out
        return self.compact(cur)

    def iter_gen(self, st, it, o, body, node, brks):
        cx = self.cx
        x = o.x
        k = x[0]
        if k == "view":
            return self.iter_map(st, x[1], x[2], body, node, brks)
        if k == "enum":
            start = x[2]

            def one_enum(s, v):
                g = v.a[3][1] if v.k == "sym" and len(v.a) > 3 and v.a[3] and v.a[3][0] == "elem" else None
                i = fresh("i", "int")
                add_lin(s, ladd({i: 1}, lin(start), -1))
                if g is not None:
                    add_lin(s, ladd(ladd(ladd({app("n", g): 1}, {i: 1}, -1), lin(start)), lconst(-1)))
                return body(s, T("tup", i, v))
            items = self.exact_items(st, x[1])
            if items is not None and start.k == "c":
                cur = [st]
                for j, v in enumerate(items):
                    cur = self.compact([z for s in cur for z in
                                        self.with_loop_flow(lambda y: body(y, T("tup", const(j + start.a[1]), v)), s, brks, cx)])
                return cur
            return self._iterate(st, x[1], one_enum, node, brks)
        if k == "chain":
            def inner(s, v):
                return self.iterate(s, v, body, node, brks2)
            # a break inside the body leaves both loops
            brks2 = []
            self.sinks.append(brks2)
            try:
                cur = [st]
                for a in x[1:]:
                    cur = [z for s in cur for z in (self._iterate(s, a, inner, node, []) if x[0] == "chain" else [])]
            finally:
                self.sinks.pop()
            brks += brks2
            return cur
        if k == "zip":
            def b2(s, v):
                return body(s, T("tup", v, *[fresh("zip", None, ("elem", y)) for y in x[2:]]))
            return self._iterate(st, x[1], b2, node, brks)
        if k == "calliter":
            fn, sent = x[1], x[2]

            def one(head, exits, bk):
                back = []
                for s, v in self.call(head, fn, (), {}, node):
                    a, b = self.split(s, self.cmp_eq(s, v, sent))
                    exits += a
                    for s2 in b:
                        back += self.with_loop_flow(lambda y: body(y, v), s2, bk, cx)
                return self.compact(back)
            ex, br = self.fix(node, st, one)
            brks += br
            return ex
        if k in ("fn", "genexp"):
            sink = self.exc
            outer_ex = []
            stack = list(self.stack)
            self.sinks.append(sink)

            def cb(s, v):
                me, myexc, mystack = self.cx, self.exc, self.stack
                self.cx, self.exc, self.stack = cx, sink, stack
                try:
                    return self.with_loop_flow(lambda y: body(y, v), s, brks, cx)
                finally:
                    self.cx, self.exc, self.stack = me, myexc, mystack
            try:
                if k == "fn":
                    fi = self.prog.funcs[x[1].a[0]]
                    if self.stack.count(fi.qual) >= self.recur:
                        return self.iter_seg(st, app("genof", it), body, node, brks)
                    outs = self.run_func(st, fi, x[1], dict(x[2]), node, on_yield=cb)
                    return self.compact([s for s, _ in outs])
                _, e, fi, fid, parents, mod, cls, first = x
                return self.run_genexp(st, e, fi, fid, parents, mod, cls, first, cb, node)
            finally:
                self.sinks.pop()
        return self.iter_seg(st, app("genof", it), body, node, brks)

    def run_genexp(self, st, e, fi, fid, parents, mod, cls, first, cb, node):
        from engine import Cx
        cx = Cx(fi, fid, list(parents), mod, cls, self.cx.depth + 1)
        old, self.cx = self.cx, cx
        cx.up = old
        f = st.frames.get(fid)
        if f is None:
            st.frames[fid] = {}
        try:
            def inner(s):
                out = []
                for s2, v in self.ev(e.elt, s):
                    out += cb(s2, v)
                return out

            def outer(s, v):
                r = []
                for s2 in self.assign(e.generators[0].target, s, v):
                    cur, skip = [s2], []
                    for c in e.generators[0].ifs:
                        nx = []
                        for y in cur:
                            a, b = self.cond(c, y)
                            nx += a
                            skip += b
                        cur = nx
                    for y in cur:
                        r += self.comp(e.generators, 1, y, inner, e)
                    r += skip
                return self.compact(r)
            return self.iterate(st, first, outer, e)
        finally:
            self.cx = old

    # ---------------------------------------------------------------------------------- subscripts
    def getitem(self, st, v, k, node):
        o = st.get(v)
        if o is not None:
            if o.kind == "inst" and o.cls is not None and o.cls.k == "cls":
                r = self.lookup(o.cls.a[0], "__getitem__")
                if r is not None and not isinstance(r[0], str):
                    return self.call(st, T("bound", r[1], v), (k,), {}, node)
            if o.ent is not None:
                return self.dict_method(st, v, "__getitem__", (k,), {}, node)
            if o.seq is not None:
                return self.index_seq(st, v, o.seq, k, node)
            if o.kind in ("gen", "set", "fn"):
                if o.kind == "gen" and o.x[0] == "view":
                    return [(st, fresh("viewitem"))]
                self.definite(st, node, "%s is not subscriptable" % self.vdesc(st, v))
                self.throwx(st, "TypeError", node)
                return []
            return [(st, app("item", v, k))]
        if v.k == "tup":
            return self.index_seq(st, v, self.seq_of(st, v), k, node)
        if v is NONE or st.facts.get(app("isnone", v)) is True or v.k in ("func", "clo", "cls", "mod"):
            self.definite(st, node, "%s is not subscriptable" % self.vdesc(st, v))
            self.throwx(st, "TypeError", node)
            return []
        ty = typeof(st, v)
        if ty in STRISH:
            if v.k == "c" and k.k == "c" and isinstance(k.a[1], int):
                try:
                    return [(st, const(v.a[1][k.a[1]], v.a[0]))]
                except IndexError:
                    self.throwx(st, "IndexError", node)
                    return []
            if texts.structured(v) and k.k == "c" and isinstance(k.a[1], int):
                r = texts.slice_(st, v, k, const(k.a[1] + 1) if k.a[1] != -1 else NONE)
                if r is not None and r.k == "c" and len(r.a[1]) == 1:
                    return [(st, r)]
            L = lenof(v)
            ok = self.in_range(st, L, k, node)
            return [(s, app("char", v, k)) for s in ok]
        if ty in ("int", "bool", "float", "none"):
            self.definite(st, node, "%s is not subscriptable" % ty)
            self.throwx(st, "TypeError", node)
            return []
        if ty in ("list", "tuple", "seq"):
            return self.index_seq(st, v, self.seq_of(st, v), k, node)
        if v.k == "ext":
            a, b = self.split_atom(st, app("has", v, k))
            for s in b:
                self.throwx(s, "KeyError", node, k)
            if not a:
                return []
            st = a[0]
            r = app("item", v, k)
            if v.a[0] == "htmlentitydefs.name2codepoint":
                r = app("typed", r, "int")
                add_lin(st, ladd(lin(r), lconst(-34)))
                add_lin(st, ladd(lconst(9830), lin(r), -1))
            return [(st, r)]
        if k.k == "c" and isinstance(k.a[1], str):
            a, b = self.split_atom(st, app("has", v, k))
            for s in b:
                self.throwx(s, "KeyError", node, k)
            return [(s, app("item", v, k)) for s in a]
        return [(st, app("item", v, k))]

    def in_range(self, st, L, k, node):
        """states in which index k is valid for length L; throws IndexError otherwise"""
        i = lin(k)
        if set(i) <= {None}:
            c = i.get(None, 0)
            need = ladd(L, lconst(-(c + 1))) if c >= 0 else ladd(L, lconst(c))
            a, b = self.split_lin(st, need)
            for s in b:
                self.throwx(s, "IndexError", node)
            return a
        lo, hi = ladd(L, i), ladd(ladd(L, i, -1), lconst(-1))
        if entails(st, lo) and entails(st, hi):
            return [st]
        self.throwx(st.fork(), "IndexError", node)
        if add_lin(st, lo) and add_lin(st, hi):
            return [st]
        return []

    def index_seq(self, st, v, seq, k, node):
        if k.k == "c" and isinstance(k.a[1], str):
            self.definite(st, node, "list index is a string")
            self.throwx(st, "TypeError", node)
            return []
        n, _ = seqlen(seq)
        return [(s, self.seq_item(s, seq, k)) for s in self.in_range(st, n, k, node)]

    def setitem(self, st, v, k, val, node):
        """[states]"""
        o = st.get(v)
        if o is not None:
            if o.kind == "inst" and o.cls is not None and o.cls.k == "cls":
                r = self.lookup(o.cls.a[0], "__setitem__")
                if r is not None and not isinstance(r[0], str):
                    return [s for s, _ in self.call(st, T("bound", r[1], v), (k, val), {}, node)]
            if o.ent is not None:
                return self.dict_set(st, v, k, val, node)
            if o.seq is not None:
                self.rule.substore(self, st, v, k, val, node)
                n, _ = seqlen(o.seq)
                out = []
                for s in self.in_range(st, n, k, node):
                    m = s.mut(v)
                    if k.k == "c" and all(x == "one" for x, _ in m.seq):
                        q = list(m.seq)
                        q[k.a[1]] = ("one", val)
                        m.seq = tuple(q)
                    else:
                        el = [x for kk, x in m.seq if kk == "one"]
                        allint = all(typeof(s, x) == "int" for x in el) and typeof(s, val) == "int" and \
                            all(self.seg_int(s, x) for kk, x in m.seq if kk == "seg")
                        g = fresh("upd", None, ("elems", "int") if allint else ())
                        for c in (1, -1):
                            add_lin(s, lscale(ladd({app("n", g): 1}, n, -1), c))
                        m.seq = (("seg", g),)
                    out.append(s)
                return out
        if v is NONE or typeof(st, v) in STRISH + ("int", "tuple", "none"):
            self.definite(st, node, "item assignment on %s" % self.vdesc(st, v))
            self.throwx(st, "TypeError", node)
            return []
        self.rule.substore(self, st, v, k, val, node)
        return [st]

    def seg_int(self, st, g):
        if g.k == "sym" and len(g.a) > 3 and g.a[3]:
            if g.a[3][0] == "rep":
                return typeof(st, g.a[3][1]) == "int"
            if g.a[3][0] == "elems":
                return g.a[3][1] == "int"
        return False

    def delitem(self, st, v, k, node):
        o = st.get(v)
        if o is not None and o.kind == "inst" and o.cls is not None and o.cls.k == "cls":
            r = self.lookup(o.cls.a[0], "__delitem__")
            if r is not None and not isinstance(r[0], str):
                return [s for s, _ in self.call(st, T("bound", r[1], v), (k,), {}, node)]
        if o is not None and o.ent is not None:
            return [s for s, _ in self.dict_del(st, v, k, node)]
        self.rule.substore(self, st, v, k, ABSENT, node)
        if o is not None and o.seq is not None:
            m = st.mut(v)
            if k.k == "c" and all(x == "one" for x, _ in m.seq) and -len(m.seq) <= k.a[1] < len(m.seq):
                q = list(m.seq)
                del q[k.a[1]]
                m.seq = tuple(q)
            else:
                self.throwx(st.fork(), "IndexError", node)
                m.seq = (("seg", fresh("del")),)
        return [st]

    # ---------------------------------------------------------------------------------- methods
    def call_method(self, st, recv, name, args, kw, node):
        c = self.ext_contracts.get("." + name)
        if c is not None:
            r = c(self, st, (recv,) + tuple(args), kw, node)
            if r is not None:
                return r
        o = st.get(recv)
        if o is not None:
            if o.kind == "list" or (o.kind == "inst" and o.seq is not None and o.ent is None):
                return self.list_method(st, recv, name, args, kw, node)
            if o.kind == "dict" or o.ent is not None:
                return self.dict_method(st, recv, name, args, kw, node)
            if o.kind == "set":
                return self.set_method(st, recv, name, args, kw, node)
            if o.kind == "gen":
                return self.gen_method(st, recv, name, args, kw, node)
            if o.kind == "inst":
                return self.ext_method(st, recv, o, name, args, kw, node)
            return [(st, fresh("m:" + name))]
        if recv.k == "app" and recv.a[0] in ("regex", "match"):
            return self.re_method(st, recv, name, args, kw, node)
        ty = typeof(st, recv)
        if ty in STRISH:
            return self.str_method(st, recv, name, args, kw, node)
        if recv.k == "tup" or ty in ("tuple", "list"):
            if name == "index":
                self.throwx(st.fork(), "ValueError", node)
            return [(st, fresh("m:" + name, "int" if name in ("index", "count") else None))]
        if ty is None:
            if name in STR_ONLY:
                self.learn(st, recv, "text")
                return self.str_method(st, recv, name, args, kw, node)
            return self.unknown_method(st, recv, name, args, kw, node)
        return [(st, app("m", recv, name, *args))]

    def unknown_method(self, st, recv, name, args, kw, node):
        """a method of a value nothing is known about: any result; file-like names may fail with an I/O error"""
        if name in FILEOPS and self.io_raises:
            self.throwx(st.fork(), "IOError", node, name)
        if name == "read":
            return [(st, self.read_result(st, args, kw))]
        if name == "next":
            self.throwx(st.fork(), "StopIteration", node)
        ty = None
        if recv.k == "app" and recv.a[0] == "x" and not kw:
            return [(st, app("x", "." + name, recv, *args))]
        return [(st, fresh("m:" + name, ty, ("mcall", recv, name) + tuple(args)))]

    def read_result(self, st, args, kw, ty="str"):
        x = fresh("data", ty, ("read",))
        sz = args[0] if args else kw.get("size")
        if sz is not None and sz is not NONE and (typeof(st, sz) == "int" or lin(sz)):
            if entails(st, lin(sz)):
                add_lin(st, ladd(lin(sz), lenof(x), -1))
        return x

    def ext_method(self, st, recv, o, name, args, kw, node):
        if name in FILEOPS or name in ("__enter__", "__exit__"):
            mem = o.cls is not None and o.cls.a[0] in ("io.BytesIO", "io.StringIO")
            if name == "__enter__":
                return [(st, recv)]
            if name == "__exit__":
                return [(st, FALSE)]
            if self.io_raises and not mem:
                self.throwx(st.fork(), "OSError" if name in ("unlink",) else "IOError", node, name)
                if name == "close" and o.cls is not None and o.cls.a[0].startswith("tempfile"):
                    self.throwx(st.fork(), "OSError", node, "close")
            if name in ("read", "readline"):
                return [(st, self.read_result(st, args, kw))]
            if name == "tell":
                x = fresh("pos", "int")
                add_lin(st, {x: 1})
                return [(st, x)]
            return [(st, NONE if name in ("write", "close", "flush") else fresh("m:" + name))]
        return [(st, fresh("m:" + name, None, ("mcall", recv, name) + tuple(args)))]

    def gen_method(self, st, recv, name, args, kw, node):
        if name in ("next", "__next__"):
            self.throwx(st.fork(), "StopIteration", node)
            return [(st, fresh("next", None, ("elem", recv)))]
        if name == "__iter__":
            return [(st, recv)]
        return [(st, fresh("m:" + name))]

    def set_method(self, st, recv, name, args, kw, node):
        if name == "add":
            self.rule.substore(self, st, recv, args[0], args[0], node)
            m = st.mut(recv)
            m.seq = m.seq + (("one", args[0]),)
            return [(st, NONE)]
        if name in ("update", "discard", "remove", "clear", "pop"):
            self.rule.substore(self, st, recv, NONE, NONE, node)
            st.mut(recv).seq = (("seg", fresh("set")),)
            return [(st, NONE)]
        return [(st, fresh("m:" + name))]

    def list_method(self, st, recv, name, args, kw, node):
        o = st.get(recv)
        A = list(args)
        if name == "append":
            self.rule.substore(self, st, recv, NONE, A[0], node)
            m = st.mut(recv)
            m.seq = m.seq + (("one", A[0]),)
            return [(st, NONE)]
        if name in ("extend", "__iadd__"):
            self.rule.substore(self, st, recv, NONE, A[0], node)
            seq = self.seq_of(st, A[0])
            if seq is not None:
                m = st.mut(recv)
                m.seq = m.seq + seq
                return [(st, NONE)]

            def body(s, v):
                m = s.mut(recv)
                m.seq = m.seq + (("one", v),)
                return [s]
            return [(s, NONE) for s in self.iterate(st, A[0], body, node)]
        if name in ("insert",):
            self.rule.substore(self, st, recv, NONE, A[1], node)
            m = st.mut(recv)
            if A[0] is ZERO:
                m.seq = (("one", A[1]),) + m.seq
            elif A[0].k == "c" and all(k == "one" for k, _ in m.seq):
                q = list(m.seq)
                q.insert(A[0].a[1], ("one", A[1]))
                m.seq = tuple(q)
            else:
                m.seq = (("seg", fresh("ins")),)
            return [(st, NONE)]
        if name == "pop":
            self.rule.substore(self, st, recv, NONE, ABSENT, node)
            k = A[0] if A else const(-1)
            n, _ = seqlen(o.seq)
            outs = []
            for s in self.in_range(st, n, k, node):
                m = s.mut(recv)
                v = self.seq_item(s, m.seq, k)
                if k.k == "c" and k.a[1] == -1 and m.seq and m.seq[-1][0] == "one":
                    m.seq = m.seq[:-1]
                elif k.k == "c" and k.a[1] == 0 and m.seq and m.seq[0][0] == "one":
                    m.seq = m.seq[1:]
                elif k.k == "c" and k.a[1] == 0 and len(m.seq) == 1:
                    g = app("tail", m.seq[0][1])
                    for c in (1, -1):
                        add_lin(s, lscale(ladd(ladd({app("n", g): 1}, n, -1), lconst(1)), c))
                    m.seq = (("seg", g),)
                else:
                    m.seq = (("seg", fresh("popped")),)
                outs.append((s, v))
            return outs
        if name in ("remove", "sort", "reverse", "clear", "__setslice__", "__delslice__", "__imul__"):
            self.rule.substore(self, st, recv, NONE, ABSENT, node)
            if name == "remove":
                self.throwx(st.fork(), "ValueError", node)
            m = st.mut(recv)
            if name == "reverse" and all(k == "one" for k, _ in m.seq):
                m.seq = m.seq[::-1]
            elif name == "sort":
                g = fresh("sorted")
                n, _ = seqlen(m.seq)
                for c in (1, -1):
                    add_lin(st, lscale(ladd({app("n", g): 1}, n, -1), c))
                m.seq = (("seg", g),)
            else:
                m.seq = (("seg", fresh(name)),)
            return [(st, NONE)]
        if name == "__len__":
            return [(st, mkint(seqlen(o.seq)[0]))]
        if name == "__getitem__":
            return self.index_seq(st, recv, o.seq, A[0], node)
        if name == "__setitem__":
            return [(s, NONE) for s in self.setitem(st, recv, A[0], A[1], node)]
        if name == "__delitem__":
            return [(s, NONE) for s in self.delitem(st, recv, A[0], node)]
        if name == "__contains__":
            return [(st, self.cmp_in(st, A[0], recv))]
        if name in ("index", "count"):
            t = app("items", *[y for g in o.seq for y in g])
            if name == "index":
                if not self.fails(st, node, "ValueError", "index", t, A[0]):
                    return []
            x = app("index" if name == "index" else "count", t, *A)
            add_lin(st, {x: 1})
            return [(st, x)]
        if name == "__iter__":
            return [(st, recv)]
        return [(st, fresh("m:" + name))]

    # -- methods of built-in bases reached through super() or Base.method(self)
    def call_base(self, st, base, name, self_, args, kw, node):
        o = st.get(self_)
        base = EXC_ALIAS.get(base, base)
        if name == "__new__":
            cls = self_ if self_.k in ("cls",) else (args[0] if args else self_)
            rest = args if self_.k == "cls" else args[1:]
            if cls.k == "cls":
                x = self.alloc(st, cls, node)
                b = self.extbase(cls.a[0])
                if b in ("tuple", "list"):
                    s = self.seq_of(st, rest[0]) if rest else ()
                    st.mut(x).seq = s if s is not None else (("seg", app("listof", rest[0])),)
                return [(st, x)]
            return [(st, fresh("new"))]
        if base in PY2_EXC:
            if name == "__init__" and o is not None:
                self.rule.store(self, st, self_, "args", T("tup", *args), node)
                st.mut(self_).attrs["args"] = T("tup", *args)
                if base in ("UnicodeDecodeError", "UnicodeEncodeError") and len(args) == 5:
                    for n, v in zip(("encoding", "object", "start", "end", "reason"), args):
                        st.mut(self_).attrs[n] = v
                return [(st, NONE)]
            return [(st, fresh("exc." + name, "str" if name in ("__str__", "__repr__") else None))]
        if base == "object":
            if name == "__init__":
                if args and node is not None:
                    self.definite(st, node, "object.__init__() takes no parameters")
                    self.throwx(st, "TypeError", node)
                    return []
                return [(st, NONE)]
            if name == "__setattr__" and len(args) == 2 and args[0].k == "c":
                return [(s, NONE) for s in self.setattr(st, self_, args[0].a[1], args[1], node)]
            if name == "__delattr__" and args and args[0].k == "c":
                return [(s, NONE) for s in self.delattr(st, self_, args[0].a[1], node)]
            if name == "__getattribute__" and args and args[0].k == "c":
                return self.getattr(st, self_, args[0].a[1], node)
            return [(st, fresh("obj." + name, "str" if name in ("__str__", "__repr__") else None))]
        if base == "dict" and o is not None and o.ent is not None:
            return self.dict_method(st, self_, name, args, kw, node)
        if base in ("list", "tuple", "set") and o is not None and o.seq is not None:
            if name == "__init__":
                if base == "list" and args:
                    s = self.seq_of(st, args[0])
                    st.mut(self_).seq = s if s is not None else (("seg", app("listof", args[0])),)
                return [(st, NONE)]
            return self.list_method(st, self_, name, args, kw, node)
        if base in ("str", "unicode") and isstr(st, self_):
            return self.str_method(st, self_, name, args, kw, node)
        return self.call_method(st, self_, name, args, kw, node)

    # ---------------------------------------------------------------------------------- strings
    def strkind(self, st, x):
        ty = typeof(st, x)
        if ty in ("str", "unicode"):
            return ty
        for n in ("str", "unicode"):
            if st.facts.get(app("isinst", x, T("ext", n))) is True:
                return n
        if ty == "text":
            if st.facts.get(app("isinst", x, T("ext", "str"))) is False:
                return "unicode"
            if st.facts.get(app("isinst", x, T("ext", "unicode"))) is False:
                return "str"
        return ty

    def is_ascii(self, st, x):
        if x.k == "c":
            return not isinstance(x.a[1], str) or all(ord(c) < 128 for c in x.a[1])
        if st.facts.get(app("isascii", x)) is True:
            return True
        if typeof(st, x) in ("int", "bool", "float"):
            return True
        v = st.facts.get(app("val", x))
        if v is not None:
            return self.is_ascii(st, v)
        for f, b in st.facts.items():
            if b is False and f.k == "app" and f.a[0] == "isnone":
                m = f.a[1]
                if m.k == "app" and m.a[0] == "match" and m.a[2] is x and m.a[3] == "match" and self.ascii_regex(m.a[1]):
                    return True
        if x.k == "app":
            op = x.a[0]
            if op in ("ascii", "quote", "b64enc", "ub64enc", "int", "repr"):
                return True
            if op in ("slice", "strip", "lstrip", "rstrip", "lower", "upper", "char", "splitpart", "str", "netloc", "afternet", "elemat",
                      "basename", "root", "ext"):
                return self.is_ascii(st, x.a[1])
            if op in ("decode", "encode"):
                e = x.a[2]
                if op == "encode" and e.k == "c" and e.a[1] in ("ascii", "us-ascii"):
                    return True
                return self.is_ascii(st, x.a[1])
            if op in ("cat", "replace"):
                return all(self.is_ascii(st, y) for y in x.a[1:])
            if op == "group":
                return False
        if x.k == "sym" and len(x.a) > 3 and isinstance(x.a[3], tuple) and x.a[3]:
            if x.a[3][0] == "ascii":
                return True
            if x.a[3][0] == "elem" and x.a[3][1].k == "app" and x.a[3][1].a[0] in ("split", "wsplit"):
                return self.is_ascii(st, x.a[3][1].a[1])
        return False

    def lacks(self, st, x, ch):
        """is the one-character string ch known not to occur in x?"""
        if x.k == "c":
            return isinstance(x.a[1], str) and ch.a[1] not in x.a[1]
        v = st.facts.get(app("val", x))
        if v is not None:
            return self.lacks(st, v, ch)
        for op in ("find", "rfind"):
            if entails(st, ladd(lconst(-1), {app(op, x, ch): 1}, -1)):
                return True
        if x.k != "app":
            return False
        op = x.a[0]
        if op == "basename" and ch.a[1] == "/":
            return True
        if op == "slice":
            y, lo, hi = x.a[1:4]
            if lo is not NONE and hi is NONE and lin(lo) == ladd({app("rfind", y, ch): 1}, lconst(1)):
                return True
            if hi is not NONE and hi == app("find", y, ch) and (lo is NONE or lo is ZERO):
                return True
        if op == "elemat" and x.a[1].k == "app" and x.a[1].a[0] == "split" and len(x.a[1].a) == 3 and x.a[1].a[2] == ch:
            return True
        if op == "replace" and len(x.a) == 4 and x.a[2] == ch:
            return self.lacks(st, x.a[3], ch)
        if op in ("slice", "strip", "lstrip", "rstrip", "lower", "upper", "char", "basename", "root", "ext", "elemat", "typed", "str"):
            if op == "typed" or op == "elemat":
                return False
            return self.lacks(st, x.a[1], ch)
        if op == "cat":
            return all(self.lacks(st, y, ch) for y in x.a[1:])
        return False

    def ascii_regex(self, r):
        import relang
        if r.k != "app" or r.a[0] != "regex" or r.a[1].k != "c" or not isinstance(r.a[1].a[1], str):
            return False
        f = self.reflags(r.a[2])
        return f is not None and relang.ascii_only(r.a[1].a[1], f)

    def textcodec(self, st, enc):
        """is the codec name known to denote a text encoding?"""
        if enc is None or enc is NONE:
            return True
        if enc.k == "c":
            return str(enc.a[1]).lower() in TEXT_CODECS
        if st.facts.get(app("textcodec", enc)) is True:
            return True
        if enc.k == "sym" and len(enc.a) > 3 and enc.a[3] and enc.a[3][0] == "charset":
            return True
        if enc.k == "app" and enc.a[0] in ("str", "decode", "encode", "lower", "strip"):
            return self.textcodec(st, enc.a[1])
        return False

    def codec_errors(self, st, enc, node, dec):
        if not self.textcodec(st, enc):
            ok = self.fails(st, node, "LookupError", "codec", enc)
            if dec and ok:
                # 'hex', 'zlib' ... are codecs too, and fail in their own ways
                ok = self.fails(st, node, "TypeError", "codec", enc)
            return ok
        return True

    def str_method(self, st, x, name, args, kw, node):
        A = list(args)
        c = x.k == "c"
        allc = c and all(a.k == "c" for a in A) and not kw
        if allc and name in ("find", "rfind", "strip", "lstrip", "rstrip", "lower", "upper", "replace", "startswith", "endswith", "count",
                             "isdigit", "ljust", "rjust", "title", "isspace"):
            try:
                r = getattr(x.a[1], name)(*[a.a[1] for a in A])
                return [(st, const(r, x.a[0]) if isinstance(r, str) else const(r))]
            except (TypeError, ValueError):
                pass
        ty = typeof(st, x)
        if not c and not kw and texts.structured(x):
            r = self.text_method(st, x, name, A, node)
            if r is not None:
                return r
            self.rule.undecided(self, x, node)
        if name in ("find", "rfind", "count"):
            if A and A[0].k == "c" and isinstance(A[0].a[1], str) or (A and isstr(st, A[0])) or A:
                r = app(name, x, *A)
                return [(st, r)]
        if name == "index" or name == "rindex":
            f = app("find" if name == "index" else "rfind", x, *A)
            a, b = self.split_lin(st, lin(f))
            for s in b:
                self.throwx(s, "ValueError", node)
            return [(s, f) for s in a]
        if name in ("strip", "lstrip", "rstrip"):
            if x.k == "app" and x.a[0] == name and x.a[2:] == tuple(A):
                return [(st, x)]
            return [(st, app(name, x, *A))]
        if name in ("lower", "upper", "title", "capitalize", "swapcase"):
            if x.k == "app" and x.a[0] == name:
                return [(st, x)]
            return [(st, app(name if name in ("lower", "upper") else "typed", x, *([] if name in ("lower", "upper") else ["text", name])))]
        if name in ("startswith", "endswith"):
            from engine import mk_or
            pats = list(A[0].a) if A[0].k == "tup" else [A[0]]
            r = FALSE
            for p in pats:
                if c and p.k == "c":
                    t = const(getattr(x.a[1], name)(p.a[1]))
                elif p.k == "c" and p.a[1] == "":
                    t = TRUE
                elif x is p or x.k == "app" and x.a[0] == "cat" and x.a[1 if name == "startswith" else -1] is p:
                    t = TRUE
                elif x.k == "app" and x.a[0] == "cat" and p.k == "c" and x.a[1 if name == "startswith" else -1].k == "c" and \
                        len(x.a[1 if name == "startswith" else -1].a[1]) >= len(p.a[1]):
                    t = const(getattr(x.a[1 if name == "startswith" else -1].a[1], name)(p.a[1]))
                else:
                    t = self.starts(x, p, name) if p.k == "c" and isinstance(p.a[1], str) else app(name, x, p)
                r = mk_or(r, t)
            return [(st, r)]
        if name == "replace":
            return [(st, app("replace", x, *A))]
        if name == "split":
            return self.str_split(st, x, A, kw, node, False)
        if name == "rsplit":
            return self.str_split(st, x, A, kw, node, True)
        if name in ("partition", "rpartition"):
            f = app("find" if name == "partition" else "rfind", x, A[0])
            a, b = self.split_lin(st, lin(f))
            e = const("")
            out = []
            for s in a:
                end = mkint(ladd(lin(f), lenof(A[0])))
                out.append((s, T("tup", mkslice(x, NONE, f), A[0], mkslice(x, end, NONE))))
            for s in b:
                out.append((s, T("tup", x, e, e) if name == "partition" else T("tup", e, e, x)))
            return out
        if name == "splitlines":
            g = app("splitlines", x, *A)
            return [(st, st.new(Obj("list", seq=(("seg", g),)), node))]
        if name == "join":
            return self.str_join(st, x, A[0], node)
        if name in ("decode", "encode"):
            enc = A[0] if A else kw.get("encoding", NONE)
            err = A[1] if len(A) > 1 else kw.get("errors", NONE)
            if not self.codec_errors(st, enc, node, name == "decode"):
                return []
            kind = self.strkind(st, x)
            lax = err.k == "c" and err.a[1] in ("replace", "ignore", "xmlcharrefreplace", "backslashreplace")
            if err.k == "c" and err.a[1] not in (None, "strict", "replace", "ignore", "xmlcharrefreplace", "backslashreplace"):
                # a bad error-handler name only shows on the first bad character
                if not self.is_ascii(st, x):
                    if not (self.fails(st, node, "LookupError", "handler", x, err) and
                            self.fails(st, node, "UnicodeEncodeError", name, x, enc)):
                        return []
            if not self.is_ascii(st, x):
                exc = "UnicodeDecodeError" if name == "decode" else "UnicodeEncodeError"
                total = name == "decode" and enc.k == "c" and str(enc.a[1]).lower() in ("latin-1", "latin1", "iso-8859-1") or \
                    (name == "encode" and enc.k == "c" and str(enc.a[1]).lower() in ("utf-8", "utf8"))
                if name == "decode" and kind == "unicode":
                    if not self.fails(st, node, "UnicodeEncodeError", name, x, enc):
                        return []
                elif not lax and not total:
                    if not self.fails(st, node, exc, name, x, enc):
                        return []
            if name == "encode" and kind == "str" and (self.is_ascii(st, x)):
                return [(st, x)]
            if name == "decode":
                if c and self.is_ascii(st, x):
                    return [(st, const(x.a[1], "unicode"))]
                r = app("decode", x, enc if enc is not NONE else const("ascii"))
                if not self.textcodec(st, enc):
                    r = app("decode?", x, enc)
                    return [(st, r)]
                return [(st, r)]
            if c and self.is_ascii(st, x):
                return [(st, const(x.a[1], "str"))]
            return [(st, app("encode", x, enc if enc is not NONE else const("ascii")))]
        if name == "format":
            return self.str_format(st, x, A, kw, node)
        if name in ("isdigit", "isspace", "isalpha", "isalnum", "isupper", "islower"):
            return [(st, app("isdigit" if name == "isdigit" else "matches", x) if name == "isdigit" else app("matches", name, x))]
        if name == "__len__":
            return [(st, mkint(lenof(x)))]
        if name == "__contains__":
            return [(st, self.cmp_in(st, A[0], x))]
        if name == "__getitem__":
            return self.getitem(st, x, A[0], node)
        return [(st, app("typed", app("m", x, name, *A), ty or "text"))]

    def text_method(self, st, x, name, A, node):
        """a method of a structured text, where the structure decides it"""
        cs = A[0].a[1] if A and A[0].k == "c" and isinstance(A[0].a[1], str) else None
        ty = "unicode" if typeof(st, x) == "unicode" else "str"
        if name in ("find", "index", "rfind", "rindex") and cs is not None:
            if name in ("find", "index") and len(A) == 2:
                r = texts.find(st, x, cs, A[1])
            elif len(A) == 1:
                r = texts.find(st, x, cs) if name in ("find", "index") else texts.rfind(st, x, cs)
            else:
                return None
            if r is None:
                return None
            if isinstance(r, tuple):
                a, b = self.split_lin(st, ladd(r[1], lin(A[1]), -1))
                out = []
                for s in a + b:
                    q = self.text_method(s, x, name, A, node)
                    if q is None:
                        return None
                    out += q
                return out
            if r == "none":
                if name in ("index", "rindex"):
                    self.throwx(st, "ValueError", node)
                    return []
                return [(st, const(-1))]
            return [(st, mkint(r))]
        if name == "count" and cs and len(A) == 1:
            r = texts.count(st, x, cs)
            return None if r is None else [(st, const(r))]
        if name in ("split", "rsplit") and cs and len(A) <= 2:
            most = None
            if len(A) == 2:
                if A[1].k != "c" or not isinstance(A[1].a[1], int):
                    return None
                most = A[1].a[1] if A[1].a[1] >= 0 else None
            r = texts.split(st, x, cs, most, name == "rsplit")
            return None if r is None else [(st, st.new(Obj("list", seq=tuple(("one", y) for y in r)), node))]
        if name in ("partition", "rpartition") and cs:
            r = texts.split(st, x, cs, 1, name == "rpartition")
            if r is None:
                return None
            e = const("", ty)
            if len(r) == 2:
                return [(st, T("tup", r[0], A[0], r[1]))]
            return [(st, T("tup", x, e, e) if name == "partition" else T("tup", e, e, x))]
        if name in ("strip", "lstrip", "rstrip") and (not A or cs is not None and len(A) == 1):
            return [(st, texts.strip(x, name, cs))]
        if name in ("lower", "upper") and not A:
            return [(st, texts.lower(x, name))]
        if name in ("startswith", "endswith") and cs is not None and len(A) == 1:
            r = (texts.starts if name == "startswith" else texts.ends)(st, x, cs)
            return None if r is None else [(st, TRUE if r else FALSE)]
        return None

    def str_split(self, st, x, A, kw, node, right):
        sep = A[0] if A else kw.get("sep", NONE)
        mx = A[1] if len(A) > 1 else kw.get("maxsplit", None)

        def mk(s, *parts):
            return s.new(Obj("list", seq=tuple(("one", p) for p in parts)), node)
        if sep is NONE and x.k == "c" and mx is None:
            return [(st, mk(st, *[const(p, x.a[0]) for p in x.a[1].split()]))]
        if sep is NONE:
            g = app("wsplit", x)
            return [(st, st.new(Obj("list", seq=(("seg", g),)), node))]
        if x.k == "c" and sep.k == "c" and (mx is None or mx.k == "c"):
            try:
                ps = (x.a[1].rsplit if right else x.a[1].split)(sep.a[1], *([mx.a[1]] if mx is not None else []))
                return [(st, mk(st, *[const(p, x.a[0]) for p in ps]))]
            except ValueError:
                pass
        if mx is not None and mx.k == "c" and mx.a[1] == 1:
            f = app("rfind" if right else "find", x, sep)
            known = st.facts.get(app("in", sep, x))
            if known is True:
                add_lin(st, lin(f))
            a, b = self.split_lin(st, lin(f))
            end = mkint(ladd(lin(f), lenof(sep)))
            return [(s, mk(s, mkslice(x, NONE, f), mkslice(x, end, NONE))) for s in a] + [(s, mk(s, x)) for s in b]
        g = app("split", x, sep) if mx is None else app("split", x, sep, mx)
        n = {app("n", g): 1}
        add_lin(st, ladd(n, lconst(-1)))
        if mx is None:
            cnt = {app("count", x, sep): 1}
            d = ladd(ladd(n, cnt, -1), lconst(-1))
            add_lin(st, d)
            add_lin(st, lscale(d, -1))
        elif lin(mx):
            add_lin(st, ladd(ladd(lin(mx), lconst(1)), n, -1))
        return [(st, st.new(Obj("list", seq=(("seg", g),)), node))]

    def str_join(self, st, x, it, node):
        empty = x.k == "c" and x.a[1] == ""

        def fin(s, seq):
            kinds = {typeof(s, v) for k, v in seq if k == "one"}
            if "unicode" in kinds and "str" in kinds and any(
                    typeof(s, v) == "str" and not self.is_ascii(s, v) for k, v in seq if k == "one"):
                self.throwx(s.fork(), "UnicodeDecodeError", node)
            if empty:
                if not seq:
                    return const("")
                return flat(seq)
            if not seq:
                return const("")
            if all(k == "one" for k, _ in seq):
                out = []
                for i, (_, v) in enumerate(seq):
                    if i:
                        out.append(x)
                    out.append(v)
                return mkcat(*out)
            return app("join", x, *[app(k, v) for k, v in seq])
        if x.k == "c" and x.a[1] == "" and it.k == "obj":
            o = st.get(it)
            if o.kind == "list" and len(o.seq) == 1 and o.seq[0][0] == "seg" and o.seq[0][1].k == "app" and o.seq[0][1].a[0] == "wsplit":
                return [(st, app("nows", o.seq[0][1].a[1]))]
        seq = self.seq_of(st, it)
        if seq is not None:
            return [(st, fin(st, seq))]
        o = st.get(it)
        if o is None or o.kind not in ("gen", "inst"):
            if it is NONE or typeof(st, it) in ("int", "bool", "none"):
                self.definite(st, node, "join over %s" % self.vdesc(st, it))
                self.throwx(st, "TypeError", node)
                return []
            return [(st, app("join", x, app("seg", it)) if not empty else app("flat", it))]
        tmp = st.new(Obj("list", seq=()), (id(node), "join"))

        def body(s, v):
            m = s.mut(tmp)
            m.seq = m.seq + (("one", v),)
            return [s]
        out = []
        for s in self.held(st, tmp, it, body, node):
            seq = s.get(tmp).seq
            s.heap = dict(s.heap)
            s.heap.pop(tmp.a[0], None)
            out.append((s, fin(s, seq)))
        return self.compact_vals(out)

    def str_format(self, st, x, A, kw, node):
        if x.k != "c":
            return [(st, fresh("format", "text"))]
        import string
        try:
            parts = list(string.Formatter().parse(x.a[1]))
        except ValueError:
            self.throwx(st, "ValueError", node)
            return []
        out, auto = [], 0
        for lit, field, spec, conv in parts:
            if lit:
                out.append(const(lit, x.a[0]))
            if field is None:
                continue
            if field == "":
                v = A[auto] if auto < len(A) else None
                auto += 1
            elif field.isdigit():
                v = A[int(field)] if int(field) < len(A) else None
            else:
                v = kw.get(field.split(".")[0].split("[")[0])
                if v is not None and not field.isidentifier():
                    v = fresh("fmt", "text")
            if v is None:
                if "**" in kw or "*" in kw:
                    v = fresh("fmt", "text")
                else:
                    self.definite(st, node, "format() field %r has no argument" % field)
                    self.throwx(st, "IndexError", node)
                    return []
            out.append(self.to_str(st, v, node, conv, "unicode" if x.a[0] == "unicode" else "str"))
        return [(st, mkcat(*out))]

    def to_str(self, st, v, node, conv=None, into="str"):
        """str(v) inside a formatting operation"""
        if conv in ("r", "a"):
            return app("repr", v)
        if v.k == "c":
            return v if isinstance(v.a[1], str) else const(str(v.a[1]))
        ty = self.strkind(st, v)
        if ty in STRISH:
            if into == "str" and ty == "unicode" and not self.is_ascii(st, v):
                # '{}'.format(u'..') encodes; '%s' % u'..' promotes (the caller passes into=None)
                self.fails(st, node, "UnicodeEncodeError", "str", v)
            if into == "unicode" and ty == "str" and not self.is_ascii(st, v):
                self.fails(st, node, "UnicodeDecodeError", "unicode", v)
            return v
        return app("str", v)

    def fmt_percent(self, st, a, b, node):
        if a.k != "c":
            return [(st, fresh("fmt", "text"))]
        import re as _re
        fmt = a.a[1]
        ob = st.get(b)
        toks = _re.split(r"(%(?:\(\w+\))?[#0\- +]*\d*(?:\.\d+)?[diouxXeEfFgGcrs%])", fmt)
        specs = [t for t in toks[1::2] if t != "%%"]
        if any("(" in t for t in specs):
            if ob is not None and ob.ent is not None:
                out = []
                for i, t in enumerate(toks):
                    if i % 2 == 0:
                        out.append(const(t, a.a[0]))
                    elif t == "%%":
                        out.append(const("%"))
                    else:
                        k = const(t[t.index("(") + 1:t.index(")")])
                        v = ob.ent.get(k)
                        out.append(self.to_str(st, v, node, None, None) if v is not None and v is not ABSENT else fresh("fmt", "text"))
                return [(st, mkcat(*out))]
            return [(st, fresh("fmt", "text"))]
        if b.k == "tup":
            vals = list(b.a)
        elif typeof(st, b) == "tuple":
            return [(st, fresh("fmt", "text"))]
        else:
            vals = [b]
        if len(vals) != len(specs):
            self.definite(st, node, "format string has %d fields, %d given" % (len(specs), len(vals)))
            self.throwx(st, "TypeError", node)
            return []
        out, j = [], 0
        for i, t in enumerate(toks):
            if i % 2 == 0:
                if t:
                    out.append(const(t, a.a[0]))
            elif t == "%%":
                out.append(const("%"))
            else:
                v = vals[j]
                j += 1
                if t[-1] == "s":
                    out.append(self.to_str(st, v, node, None, None))
                elif t[-1] == "r":
                    out.append(app("repr", v))
                elif v.k == "c" and not isinstance(v.a[1], str) and v.a[1] is not None:
                    try:
                        out.append(const(t % v.a[1]))
                    except (TypeError, ValueError):
                        self.throwx(st, "TypeError", node)
                        return []
                else:
                    if isstr(st, v) or v is NONE:
                        self.definite(st, node, "%s needs a number" % t)
                        self.throwx(st, "TypeError", node)
                        return []
                    out.append(app("fmt", const(t), v))
        ks = [typeof(st, v) for v in out]
        if "unicode" in ks:
            for v in out:
                if typeof(st, v) == "str" and not self.is_ascii(st, v):
                    self.throwx(st.fork(), "UnicodeDecodeError", node)
                    break
        return [(st, mkcat(*out))]

    # ---------------------------------------------------------------------------------- regular expressions
    def re_method(self, st, r, name, args, kw, node):
        if r.a[0] == "regex":
            r = self.norm_regex(r, "match" if name == "match" else name)
            if name in ("match", "search", "fullmatch"):
                x = args[0]
                if x is NONE or typeof(st, x) in ("int", "bool", "list", "dict", "none", "tuple"):
                    self.definite(st, node, "regular expression on %s" % self.vdesc(st, x))
                    self.throwx(st, "TypeError", node)
                    return []
                self.learn(st, x, "text")
                return [(st, app("match", r, x, name))]
            if name == "sub":
                f, x = args[0], args[1]
                outs = [(st, app("sub", r, f, x))]
                if f.k in ("func", "clo", "bound"):
                    m = fresh("m", None, ("submatch", r, x))
                    mm = app("match", r, m, "sub")
                    s0 = st.fork()
                    s0.facts[app("isnone", mm)] = False
                    rs = self.call(s0, f, (mm,), {}, node)
                    h = getattr(self.rule, "sub_result", None)
                    if h:
                        for s, v in rs:
                            h(self, s, v, mm, node)
                return outs
            if name == "split":
                if r.a[1].k == "c" and (args[0].k == "c" and args[0].a[1] == "" or
                                        args[0].k != "c" and isstr(st, args[0]) and entails(st, lscale(lenof(args[0]), -1))):
                    import relang
                    if (relang.groupmin(r.a[1].a[1], self.reflags(r.a[2]) or 0, 0) or 0) > 0:
                        return [(st, st.new(Obj("list", seq=(("one", const("")),)), node))]
                g = full = app("split", args[0], r)
                mx = args[1] if len(args) > 1 else kw.get("maxsplit", ZERO)
                add_lin(st, {app("n", full): 1, None: -1})
                if mx is not ZERO:
                    g = app("split", args[0], r, mx)
                    n = {app("n", g): 1}
                    if entails(st, ladd(lin(mx), lconst(-1))):
                        d = ladd(n, {app("min", app("n", full), mkint(ladd(lin(mx), lconst(1)))): 1}, -1)
                        add_lin(st, d)
                        add_lin(st, lscale(d, -1))
                    else:
                        add_lin(st, ladd(n, lconst(-1)))
                        add_lin(st, ladd({app("n", full): 1}, n, -1))
                return [(st, st.new(Obj("list", seq=(("seg", g),)), node))]
            if name in ("findall", "finditer"):
                return [(st, st.new(Obj("list", seq=(("seg", app(name, r, args[0])),)), node))]
            return [(st, fresh("re." + name))]
        # a match object
        if name in ("group", "__getitem__"):
            if len(args) > 1:
                return [(st, T("tup", *[self.group(st, r, a) for a in args]))]
            return [(st, self.group(st, r, args[0] if args else ZERO))]
        if name in ("groups", "groupdict"):
            return [(st, fresh("re." + name, "tuple" if name == "groups" else None, ("groups", r)))]
        if name in ("start", "end"):
            x = fresh("re." + name, "int", (name, r))
            add_lin(st, {x: 1})
            return [(st, x)]
        return [(st, fresh("re." + name))]

    def norm_regex(self, r, mode):
        """patterns of the same language and groups are the same term"""
        import relang
        if r.a[1].k != "c" or not isinstance(r.a[1].a[1], (str, bytes)):
            return r
        f = self.reflags(r.a[2])
        if f is None:
            return r
        pat, fl = relang.representative(r.a[1].a[1], f, mode)
        return app("regex", const(pat), const(fl))

    def reflags(self, t):
        import relang
        if t.k == "c":
            return t.a[1] if isinstance(t.a[1], int) else None
        if t.k == "ext":
            return relang.FLAGS.get(t.a[0])
        if t.k == "app" and t.a[0] in ("binop", "bitor", "BitOr", "|"):
            xs = [self.reflags(x) for x in t.a[1:] if isinstance(x, Term)]
            if None not in xs:
                v = 0
                for x in xs:
                    v |= x
                return v
        return None

    def group(self, st, m, k):
        import relang
        if m.k == "app" and m.a[1].k == "app" and m.a[1].a[0] == "regex" and k.k == "c" and isinstance(k.a[1], str) and m.a[1].a[1].k == "c":
            i = relang.groupindex(m.a[1].a[1].a[1], self.reflags(m.a[1].a[2]) or 0, k.a[1])
            if i is not None:
                k = const(i)
        g = app("group", m, k)
        if m.a[2].k != "sym" or m.a[3] != "sub":
            ty = typeof(st, m.a[2])
        else:
            ty = None
        n = self.groupmin(g)
        if n:
            add_lin(st, ladd(lenof(g), lconst(-n)))
        return g

    def groupmin(self, g, first=None):
        import relang
        m, k = g.a[1], g.a[2]
        if not (m.k == "app" and m.a[1].k == "app" and m.a[1].a[0] == "regex" and m.a[1].a[1].k == "c" and k.k == "c"):
            return None
        return relang.groupmin(m.a[1].a[1].a[1], self.reflags(m.a[1].a[2]) or 0, k.a[1], first)

    # ---------------------------------------------------------------------------------- external calls
    def call_ext(self, st, d, args, kw, node):
        d = canon(d)
        c = self.ext_contracts.get(d)
        if c is not None:
            r = c(self, st, args, kw, node)
            if r is not None:
                return r
        h = getattr(self, "x_" + d.replace(".", "_").replace("$", "_S_"), None)
        if h is not None:
            return h(st, list(args), kw, node)
        n = EXC_ALIAS.get(d, d)
        if n in PY2_EXC:
            return [(st, T("exc", n, None, tuple(args)))]
        if d in PURE:
            ty = PURE[d]
            if ty == "none":
                return [(st, NONE)]
            args = tuple(args) + tuple(kwflat(kw))
            if d in ("os.path.isdir", "os.path.exists", "os.path.isfile", "os.path.islink", "time.time", "os.access"):
                return [(st, fresh(d, ty, ("pure", d) + tuple(args)))]
            x = app("typed", app("x", d, *args), ty) if ty else app("x", d, *args)
            return [(st, x)]
        return [(st, fresh(d, None, ("ext", d) + tuple(args)))]

    def err(self, st, node, name, *a):
        self.throwx(st.fork(), name, node, *a)

    def fails(self, st, node, name, op, *key):
        """a deterministic operation may raise `name`: whether it does is a fact about its operands.
        False if it certainly does."""
        f = app("fails", name, op, *key)
        v = st.facts.get(f)
        if v is not False:
            s = st.fork()
            s.facts[f] = True
            self.throwx(s, name, node)
            if v is True:
                return False
            st.facts[f] = False
        return True

    # -- builtins
    def x_len(self, st, a, kw, node):
        if len(a) != 1:
            return []
        x = a[0]
        o = st.get(x)
        if o is not None:
            if o.kind == "inst" and o.cls.k == "cls":
                r = self.lookup(o.cls.a[0], "__len__")
                if r is not None and not isinstance(r[0], str):
                    return self.call(st, T("bound", r[1], x), (), {}, node)
            if o.seq is not None:
                return [(st, mkint(seqlen(o.seq)[0]))]
            if o.ent is not None:
                return self.dict_method(st, x, "__len__", (), {}, node)
            if o.kind == "gen" and o.x[0] == "view":
                return self.x_len(st, [o.x[2]], kw, node) if st.get(o.x[2]) is not None else [(st, fresh("len", "int"))]
            if o.kind in ("gen", "fn") or (o.kind == "inst" and o.cls.k == "cls"):
                self.definite(st, node, "%s has no len()" % self.vdesc(st, x))
                self.throwx(st, "TypeError", node)
                return []
            y = fresh("len", "int")
            add_lin(st, {y: 1})
            return [(st, y)]
        if x.k == "tup":
            return [(st, const(len(x.a)))]
        ty = typeof(st, x)
        if x is NONE or ty in ("int", "bool", "none", "float") or x.k in ("func", "clo", "bound", "mod"):
            self.definite(st, node, "%s has no len()" % self.vdesc(st, x))
            self.throwx(st, "TypeError", node)
            return []
        if ty in ("list", "tuple", "seq"):
            return [(st, app("n", x))]
        return [(st, mkint(lenof(x)))]

    def x_int(self, st, a, kw, node):
        if not a:
            return [(st, ZERO)]
        x = a[0]
        ty = typeof(st, x)
        if x.k == "c" and isinstance(x.a[1], (int, float)):
            return [(st, const(int(x.a[1])))]
        if ty in ("int", "bool"):
            return [(st, x)]
        if ty == "float":
            return [(st, app("int", x))]
        if x.k == "c" and isinstance(x.a[1], (str, bytes)) and (len(a) == 1 or a[1].k == "c"):
            v = x.a[1] if isinstance(x.a[1], str) else x.a[1].decode("latin-1")
            try:
                if "_" in v or not v.isascii():
                    raise ValueError
                return [(st, const(int(v, *[b.a[1] for b in a[1:]])))]
            except ValueError:
                self.throwx(st, "ValueError", node)
                return []
        if x is NONE or st.facts.get(app("isnone", x)) is True or x.k in ("tup", "cls", "func"):
            self.throwx(st, "TypeError", node)
            return []
        if x.k == "app" and st.facts.get(app("isdigit", x)) is True and len(a) == 1:
            return [(st, app("int", x))]
        if x.k == "app" and x.a[0] == "group" and self.group_digits(x):
            r = app("int", x)
            add_lin(st, {r: 1})
            return [(st, r)]
        if not self.fails(st, node, "ValueError", "int", *a):
            return []
        if ty not in STRISH:
            if not self.fails(st, node, "TypeError", "int", *a) or ty is not None:
                return []
        return [(st, app("int", x, *a[1:]))]

    x_long = x_int

    def group_digits(self, g):
        """is the group of a literal pattern all digits?"""
        m, k = g.a[1], g.a[2]
        r = m.a[1] if m.k == "app" else None
        if r is None or r.k != "app" or r.a[0] != "regex" or r.a[1].k != "c" or k.k != "c":
            return False
        import re as _re
        try:
            import re._parser as sp
        except ImportError:
            import sre_parse as sp
        try:
            p = sp.parse(r.a[1].a[1], self.reflags(r.a[2]) or 0)
        except Exception:
            return False
        idx = k.a[1] if isinstance(k.a[1], int) else p.state.groupdict.get(k.a[1])
        res = []

        def walk(q):
            for op, av in q:
                n = str(op)
                if n == "SUBPATTERN":
                    if av[0] == idx:
                        res.append(av[3])
                    walk(av[3])
                elif n in ("MAX_REPEAT", "MIN_REPEAT"):
                    walk(av[2])
                elif n == "BRANCH":
                    for b in av[1]:
                        walk(b)

        def digits(q, nonempty=True):
            tot = 0
            for op, av in q:
                n = str(op)
                if n == "IN" and all(str(x[0]) == "CATEGORY" and str(x[1]).endswith("DIGIT") and "NOT" not in str(x[1])
                                     or (str(x[0]) == "RANGE" and 48 <= x[1][0] and x[1][1] <= 57) for x in av):
                    tot += 1
                elif n in ("MAX_REPEAT", "MIN_REPEAT"):
                    if digits(av[2]) is None:
                        return None
                    tot += av[0]
                elif n == "LITERAL" and 48 <= av <= 57:
                    tot += 1
                else:
                    return None
            return tot
        walk(p)
        if len(res) != 1:
            return False
        d = digits(res[0])
        return bool(d)

    def x_str(self, st, a, kw, node):
        if not a:
            return [(st, const(""))]
        x = a[0]
        if x.k == "c":
            if isinstance(x.a[1], str):
                if self.is_ascii(st, x) or x.a[0] == "str":
                    return [(st, const(x.a[1], "str"))]
                self.throwx(st, "UnicodeEncodeError", node)
                return []
            return [(st, const(str(x.a[1])))]
        o = st.get(x)
        if o is not None and o.kind == "inst" and o.cls.k == "cls":
            for nm in ("__str__", "__repr__"):
                r = self.lookup(o.cls.a[0], nm)
                if r is not None and not isinstance(r[0], str):
                    return self.call(st, T("bound", r[1], x), (), {}, node)
            return [(st, fresh("str", "str"))]
        k = self.strkind(st, x)
        if k == "str":
            return [(st, x)]
        if k in ("int", "bool", "float") or x is NONE:
            return [(st, app("str", x))]
        if k in ("unicode", "text", None) and not self.is_ascii(st, x) and x.k not in ("obj", "tup", "cls", "func", "exc"):
            if not self.fails(st, node, "UnicodeEncodeError", "str", x):
                return []
            st.facts[app("isascii", x)] = True
            if k == "unicode" or k == "text":
                return [(st, app("str", x))]
        return [(st, app("str", x))]

    x_bytes = x_str

    def x_unicode(self, st, a, kw, node):
        if not a:
            return [(st, const("", "unicode"))]
        x = a[0]
        k = self.strkind(st, x)
        if len(a) > 1 or "encoding" in kw:
            return self.str_method(st, x, "decode", a[1:], kw, node) if k in STRISH else [(st, app("unicode", x))]
        if k == "unicode":
            return [(st, x)]
        if k in ("str", "text", None) and not self.is_ascii(st, x):
            if not self.fails(st, node, "UnicodeDecodeError", "unicode", x):
                return []
        if x.k == "c" and isinstance(x.a[1], str):
            return [(st, const(x.a[1], "unicode"))]
        return [(st, app("unicode", x))]

    def x_bool(self, st, a, kw, node):
        if not a:
            return [(st, FALSE)]
        if typeof(st, a[0]) == "bool":
            return [(st, a[0])]
        t, f = self.split(st, a[0], node)
        return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]

    def x_isinstance(self, st, a, kw, node):
        from engine import mk_or
        x, c = a
        its = self.exact_items(st, c)
        cs = its if its is not None else [c]
        r = FALSE
        for k in cs:
            v = self.isinst_known(st, x, k)
            if v is None and k.k == "ext" and k.a[0] == "basestring":
                t = mk_or(app("isinst", x, T("ext", "str")), app("isinst", x, T("ext", "unicode")))
            else:
                t = app("isinst", x, k) if v is None else const(v)
            r = mk_or(r, t)
        if r.k != "c":
            out = []
            A, B = self.split(st, r)
            for s in A:
                out.append((s, TRUE))
                for n in ("str", "unicode"):
                    if s.facts.get(app("isinst", x, T("ext", n))) is True and typeof(s, x) is None:
                        s.facts[app("typ", x)] = n
            return out + [(s, FALSE) for s in B]
        return [(st, r)]

    def x_issubclass(self, st, a, kw, node):
        r = self.subclass(a[0], a[1]) if a[0].k in ("cls", "ext") and a[1].k in ("cls", "ext") else None
        return [(st, app("subclass", *a) if r is None else const(r))]

    def x_callable(self, st, a, kw, node):
        x = a[0]
        if x.k in ("func", "clo", "bound", "cls"):
            return [(st, TRUE)]
        return [(st, app("callable", x))]

    def x_hasattr(self, st, a, kw, node):
        if a[1].k != "c":
            return [(st, app("has", a[0], a[1]))]
        r = self.hasattr(st, a[0], a[1].a[1])
        if r is None:   # a property: evaluate it
            saved, self.exc = self.exc, []
            self.guards.append({"AttributeError"})
            try:
                outs = self.getattr(st.fork(), a[0], a[1].a[1], node)
            finally:
                self.guards.pop()
                mine, self.exc = self.exc, saved
            res = [(s, TRUE) for s, _ in outs]
            res += [(s, FALSE) for s, e in mine]   # Python 2 swallows every exception here
            return res
        return [(st, r)]

    def x_getattr(self, st, a, kw, node):
        if a[1].k == "c" and isinstance(a[1].a[1], str):
            name = a[1].a[1]
            if len(a) < 3:
                return self.getattr(st, a[0], name, node)
            h = self.hasattr(st, a[0], name)
            if h is FALSE:
                return [(st, a[2])]
            if h is not None and h.k != "c":
                A, B = self.split(st, h)
                return [y for s in A for y in self.getattr(s, a[0], name, node)] + [(s, a[2]) for s in B]
            saved, self.exc = self.exc, []
            self.dry += 1
            self.guards.append({"AttributeError"})
            try:
                outs = self.getattr(st, a[0], name, node)
            finally:
                self.dry -= 1
                self.guards.pop()
                mine, self.exc = self.exc, saved
            for s, e in mine:
                if self.excmatch(s, e, T("ext", "AttributeError")) is not False:
                    outs.append((s, a[2]))
                else:
                    self.exc.append((s, e))
            return outs
        if len(a) < 3:
            if not self.fails(st, node, "AttributeError", "getattr", *a):
                return []
            if not self.is_ascii(st, a[1]) and not self.fails(st, node, "UnicodeEncodeError", "str", a[1]):
                return []
        else:
            s2 = st.fork()
            return [(st, app("attr", a[0], a[1])), (s2, a[2])]
        return [(st, app("attr", a[0], a[1]))]

    def x_setattr(self, st, a, kw, node):
        if a[1].k == "c":
            return [(s, NONE) for s in self.setattr(st, a[0], a[1].a[1], a[2], node)]
        self.rule.store(self, st, a[0], "*", a[2], node)
        return [(st, NONE)]

    def x_delattr(self, st, a, kw, node):
        if a[1].k == "c":
            return [(s, NONE) for s in self.delattr(st, a[0], a[1].a[1], node)]
        self.rule.store(self, st, a[0], "*", ABSENT, node)
        return [(st, NONE)]

    def x_property(self, st, a, kw, node):
        g = a[0] if a else kw.get("fget", NONE)
        s = a[1] if len(a) > 1 else kw.get("fset", NONE)
        return [(st, T("prop", g, s, NONE))]

    def x_classmethod(self, st, a, kw, node):
        return [(st, T("cm", a[0]))]

    def x_staticmethod(self, st, a, kw, node):
        return [(st, T("sm", a[0]))]

    def x_super(self, st, a, kw, node):
        if not a:
            self.definite(st, node, "super() needs arguments in Python 2")
            self.throwx(st, "TypeError", node)
            return []
        cls = a[0]
        obj = a[1] if len(a) > 1 else NONE
        if cls.k != "cls":
            return [(st, fresh("super"))]
        if not self.newstyle(cls.a[0]):
            self.definite(st, node, "super() on the classic class %s" % cls.a[0])
            self.throwx(st, "TypeError", node)
            return []
        o = st.get(obj)
        q = o.cls.a[0] if o is not None and o.cls is not None and o.cls.k == "cls" else (obj.a[0] if obj.k == "cls" else cls.a[0])
        return [(st, T("super", q, cls.a[0], obj))]

    def x_type(self, st, a, kw, node):
        if len(a) != 1:
            return [(st, fresh("type"))]
        x = a[0]
        o = st.get(x)
        if o is not None and o.cls is not None and o.cls.k == "cls":
            return [(st, o.cls)]
        ty = typeof(st, x)
        if x.k in ("obj", "tup", "c") and ty in ("list", "dict", "tuple", "set", "str", "unicode", "int", "bool"):
            return [(st, T("ext", ty))]
        return [(st, app("type", x))]

    def x_iter(self, st, a, kw, node):
        if len(a) == 2:
            return [(st, st.new(Obj("gen", x=("calliter", a[0], a[1])), node))]
        x = a[0]
        o = st.get(x)
        if o is not None and o.kind == "inst" and o.cls.k == "cls":
            r = self.lookup(o.cls.a[0], "__iter__")
            if r is not None and not isinstance(r[0], str):
                return self.call(st, T("bound", r[1], x), (), {}, node)
            if o.ent is not None or o.seq is not None:
                return [(st, x)]
            self.throwx(st, "TypeError", node, "not iterable")
            return []
        if o is not None and o.kind == "list" and o.seq == () or x.k == "tup" and not x.a:
            g = st.new(Obj("list", seq=()), (id(node), "nothing"))
            return [(st, st.new(Obj("gen", x=("chain", g)), node))]
        if x is NONE or typeof(st, x) in ("int", "bool", "none", "float"):
            self.throwx(st, "TypeError", node, "not iterable")
            return []
        if x.k in ("sym", "app") and typeof(st, x) is None:
            A, B = self.split_atom(st, app("has", x, "__iter__"))
            for s in B:
                self.throwx(s, "TypeError", node, "not iterable")
            return [(s, x) for s in A]
        return [(st, x)]

    def x_next(self, st, a, kw, node):
        if len(a) == 2:
            saved, self.exc = self.exc, []
            try:
                outs = self.next_call(st, a[0], node)
            finally:
                mine, self.exc = self.exc, saved
            for s, e in mine:
                if self.excmatch(s, e, T("ext", "StopIteration")) is True:
                    outs.append((s, a[1]))
                else:
                    self.exc.append((s, e))
            return outs
        o = st.get(a[0])
        if o is not None and o.kind in ("list", "dict"):
            self.definite(st, node, "next() of a %s" % o.kind)
            self.throwx(st, "TypeError", node)
            return []
        if o is not None and o.kind == "gen" and o.x[0] == "chain" and o.x[1].k == "obj" and st.get(o.x[1]).seq == ():
            self.throwx(st, "StopIteration", node)
            return []
        return self.next_call(st, a[0], node)

    def _anyall(self, st, a, node, isany):
        hit = []
        self.sinks.append(hit)
        try:
            def body(s, v):
                t, f = self.split(s, v, node)
                hit.extend(t if isany else f)
                return f if isany else t
            ends = self.iterate(st, a[0], body, node)
        finally:
            self.sinks.pop()
        return [(s, const(not isany)) for s in ends] + [(s, const(isany)) for s in self.compact(hit)]

    def x_any(self, st, a, kw, node):
        return self._anyall(st, a, node, True)

    def x_all(self, st, a, kw, node):
        return self._anyall(st, a, node, False)

    def held(self, st, obj, src, body, node):
        """iterate while an object under construction is held by a hidden local variable"""
        fid, nm = self.cx.fid if self.cx is not None else "$hold", "$h%d" % obj.a[0]
        st.setvar(fid, nm, obj)
        outs = self.iterate(st, src, body, node)
        for s in outs:
            s.delvar(fid, nm)
        return outs

    def _collect(self, st, src, kind, node):
        if src is None:
            return [(st, st.new(Obj(kind, seq=()), node) if kind != "tuple" else T("tup"))]
        seq = self.seq_of(st, src)
        if seq is not None:
            if kind == "tuple":
                if all(k == "one" for k, _ in seq):
                    return [(st, T("tup", *[x for _, x in seq]))]
                return [(st, app("typed", app("tupleof", *[app(k, x) for k, x in seq]), "tuple"))]
            return [(st, st.new(Obj(kind, seq=seq), node))]
        if typeof(st, src) in ("int", "bool", "none", "float") or src is NONE:
            self.definite(st, node, "%s() of %s" % (kind, self.vdesc(st, src)))
            self.throwx(st, "TypeError", node)
            return []
        o = st.get(src)
        if src.k in ("sym", "app") and typeof(st, src) is None:
            x = app("listof", src)
            return [(st, st.new(Obj(kind if kind != "tuple" else "list", seq=(("seg", x),)), node))]
        tmp = st.new(Obj(kind if kind != "tuple" else "list", seq=()), node)

        def body(s, v):
            m = s.mut(tmp)
            m.seq = m.seq + (("one", v),)
            return [s]
        return [(s, tmp) for s in self.held(st, tmp, src, body, node)]

    def x_list(self, st, a, kw, node):
        return self._collect(st, a[0] if a else None, "list", node)

    def x_tuple(self, st, a, kw, node):
        return self._collect(st, a[0] if a else None, "tuple", node)

    def x_set(self, st, a, kw, node):
        return self._collect(st, a[0] if a else None, "set", node)

    x_frozenset = x_set

    def x_sorted(self, st, a, kw, node):
        out = []
        for s, v in self._collect(st, a[0], "list", node):
            out += [(s2, v) for s2, _ in self.list_method(s, v, "sort", (), {}, node)]
        return out

    def x_reversed(self, st, a, kw, node):
        seq = self.seq_of(st, a[0])
        if seq is not None:
            if all(k == "one" for k, _ in seq):
                return [(st, st.new(Obj("list", seq=seq[::-1]), node))]
            g = fresh("rev", None, ("rev", a[0]))
            n, _ = seqlen(seq)
            for c in (1, -1):
                add_lin(st, lscale(ladd({app("n", g): 1}, n, -1), c))
            return [(st, st.new(Obj("list", seq=(("seg", g),)), node))]
        return [(st, fresh("rev", None, ("rev", a[0])))]

    def x_dict(self, st, a, kw, node):
        d = st.new(Obj("dict", ent={}, base=None), node)
        src = a[0] if a else None
        if src is not None and st.get(src) is not None and st.get(src).kind == "gen" or (src is not None and src.k == "obj" and st.get(src).seq is not None and self.exact_items(st, src) is None):
            def body(s, v):
                out = []
                for s2, (k, x) in self.unpack(s, v, 2, node):
                    out += self.dict_set(s2, d, k, x, node)
                return out
            return [(s, d) for s in self.held(st, d, src, body, node)]
        return [(s, d) for s, _ in self.dict_method(st, d, "__init__", tuple(a), kw, node)]

    def x_enumerate(self, st, a, kw, node):
        start = a[1] if len(a) > 1 else kw.get("start", ZERO)
        return [(st, st.new(Obj("gen", x=("enum", a[0], start)), node))]

    def x_zip(self, st, a, kw, node):
        its = [self.exact_items(st, x) for x in a]
        if all(i is not None for i in its) and its:
            return [(st, st.new(Obj("list", seq=tuple(("one", T("tup", *p)) for p in zip(*its))), node))]
        return [(st, st.new(Obj("gen", x=("zip",) + tuple(a)), node))]

    def x_range(self, st, a, kw, node):
        if len(a) == 1:
            n = a[0]
            if n.k == "c" and isinstance(n.a[1], int) and 0 <= n.a[1] <= 8:
                return [(st, st.new(Obj("list", seq=tuple(("one", const(i)) for i in range(n.a[1]))), node))]
            g = app("range", n)
            if entails(st, lin(n)):
                for c in (1, -1):
                    add_lin(st, lscale(ladd({app("n", g): 1}, lin(n), -1), c))
            return [(st, st.new(Obj("list", seq=(("seg", g),)), node))]
        return [(st, st.new(Obj("list", seq=(("seg", fresh("range", None, ("elems", "int"))),)), node))]

    x_xrange = x_range

    def x_map(self, st, a, kw, node):
        tmp = st.new(Obj("list", seq=()), node)

        def body(s, v):
            out = []
            for s2, r in self.call(s, a[0], (v,), {}, node):
                m = s2.mut(tmp)
                m.seq = m.seq + (("one", r),)
                out.append(s2)
            return out
        return [(s, tmp) for s in self.held(st, tmp, a[1], body, node)]

    def x_filter(self, st, a, kw, node):
        tmp = st.new(Obj("list", seq=()), node)

        def body(s, v):
            out = []
            for s2, r in (self.call(s, a[0], (v,), {}, node) if a[0] is not NONE else [(s, v)]):
                t, f = self.split(s2, r)
                for s3 in t:
                    m = s3.mut(tmp)
                    m.seq = m.seq + (("one", v),)
                out += t + f
            return out
        return [(s, tmp) for s in self.held(st, tmp, a[1], body, node)]

    def _minmax(self, st, a, node, op):
        if len(a) == 1:
            seq = self.seq_of(st, a[0])
            if seq is None:
                return [(st, fresh(op, "int"))]
            if not seq:
                self.throwx(st, "ValueError", node)
                return []
            ones = [x for k, x in seq if k == "one"]
            if not ones:
                self.err(st, node, "ValueError")
            if all(k == "one" for k, _ in seq):
                a = ones
            else:
                x = fresh(op, "int", (op, a[0]))
                for y in ones:
                    d = ladd(lin(y), {x: 1}, -1)
                    add_lin(st, d if op == "min" else lscale(d, -1))
                return [(st, x)]
        if all(x.k == "c" for x in a):
            return [(st, const((min if op == "min" else max)(x.a[1] for x in a)))]
        return [(st, app(op, *a))]

    def x_min(self, st, a, kw, node):
        return self._minmax(st, a, node, "min")

    def x_max(self, st, a, kw, node):
        return self._minmax(st, a, node, "max")

    def x_sum(self, st, a, kw, node):
        return [(st, fresh("sum", "int"))]

    def x_abs(self, st, a, kw, node):
        return [(st, app("abs", a[0]))]

    def x_inspect_currentframe(self, st, a, kw, node):
        from engine import srcfile
        return [(st, st.new(Obj("inst", cls=T("ext", "frame"), lazy=True, attrs={"filename": srcfile(self.cx.mod)}), node))]

    def x_inspect_getframeinfo(self, st, a, kw, node):
        return [(st, a[0])]

    def x_divmod(self, st, a, kw, node):
        return [(st, T("tup", app("floordiv", a[0], a[1]), app("mod", a[0], a[1])))]

    def _chr(self, st, a, node, lim):
        x = a[0]
        if x.k == "c" and isinstance(x.a[1], int) and 0 <= x.a[1] < lim:
            return [(st, const(chr(x.a[1]), "str" if lim == 256 else "unicode"))]
        i = lin(x)
        if not (entails(st, i) and entails(st, ladd(lconst(lim - 1), i, -1))):
            for x, c in ((i, lconst(-1)), (lscale(i, -1), lconst(lim))):
                # out of range below, above
                s = st.fork()
                y = ladd(lscale(i, -1), lconst(-1)) if c == lconst(-1) else ladd(i, lconst(-lim))
                if add_lin(s, y):
                    self.throwx(s, "ValueError", node)
                    if not entails(st, ladd(lconst(2 ** 31 - 1), i, -1)):
                        self.throwx(s.fork(), "OverflowError", node)
                        if lim == 256:
                            self.throwx(s.fork(), "TypeError", node)
            x = a[0]
            if not (add_lin(st, i) and add_lin(st, ladd(lconst(lim - 1), i, -1))):
                return []
        r = app("typed", app("chr", x), "str" if lim == 256 else "unicode")
        return [(st, r)]

    def x_chr(self, st, a, kw, node):
        return self._chr(st, a, node, 256)

    def x_unichr(self, st, a, kw, node):
        return self._chr(st, a, node, 0x110000)

    def x_open(self, st, a, kw, node):
        if self.io_raises:
            self.err(st, node, "IOError", "open")
        x = st.new(Obj("inst", cls=T("ext", "file"), lazy=True, attrs={"name": a[0]} if a else {}), node)
        return [(st, x)]

    x_file = x_open
    x_os_fdopen = x_open

    def x___import__(self, st, a, kw, node):
        self.err(st, node, "ImportError")
        return [(st, fresh("module"))]

    # -- six / exceptions
    def x_six_reraise(self, st, a, kw, node):
        tp = a[0] if a else kw.get("tp")
        val = a[1] if len(a) > 1 else kw.get("value")
        if tp is None or val is None:
            self.definite(st, node, "reraise() needs a type and a value")
            self.throwx(st, "TypeError", node)
            return []
        return self.x__S_raise2(st, [tp, val], {}, node)

    def x__S_raise2(self, st, a, kw, node):
        """raise tp, value  (Python 2)"""
        tp, val = a[0], a[1]
        if tp.k == "tup" and tp.a:
            tp = tp.a[0]
        if tp.k in ("cls", "ext") and self.is_exc_class(tp):
            vo = st.get(val)
            if val is NONE:
                self.raise_value(st, tp, node)
                return []
            if (vo is not None and vo.cls is not None) or val.k == "exc":
                m = self.excmatch(st, val, tp)
                if m is True:
                    self.throw(st, val, node)
                    return []
                if m is None:
                    self.throw(st.fork(), val, node)
            args = val.a if val.k == "tup" else (val,)
            if tp.k == "cls":
                for s, o in self.instantiate(st, tp, args, {}, node):
                    self.throw(s, o, node)
            else:
                self.throw(st, T("exc", EXC_ALIAS.get(tp.a[0], tp.a[0]), None, tuple(args)), node)
            return []
        o = st.get(tp)
        if tp.k == "exc" or (o is not None and o.cls is not None and self.is_exc_class(o.cls)):
            if val is NONE:
                self.throw(st, tp, node)
                return []
            self.definite(st, node, "re-raise of an exception instance with a separate value")
            self.throwx(st, "TypeError", node)
            return []
        if tp.k in ("sym", "app") and typeof(st, tp) is None:
            self.throw(st, tp, node)
            return []
        self.definite(st, node, "re-raise of %s, which is not an exception class" % self.vdesc(st, tp))
        self.throwx(st, "TypeError", node)
        return []

    def x_six_raise_from(self, st, a, kw, node):
        self.raise_value(st, a[0], node)
        return []

    # -- copy
    def x_copy_copy(self, st, a, kw, node):
        return self._copy(st, a[0], node, False)

    def x_copy_deepcopy(self, st, a, kw, node):
        return self._copy(st, a[0], node, True, a[1] if len(a) > 1 else kw.get("memo", NONE))

    def _copy(self, st, x, node, deep, memo=NONE):
        o = st.get(x)
        if o is None:
            if x.k == "c" or typeof(st, x) in STRISH + ("int", "bool", "float", "none"):
                return [(st, x)]
            return [(st, app("deepcopy" if deep else "copy", x) if x.k not in ("cls", "func", "ext") else x)]
        if o.kind == "inst" and o.cls.k == "cls":
            nm = "__deepcopy__" if deep else "__copy__"
            r = self.lookup(o.cls.a[0], nm)
            if r is not None and not isinstance(r[0], str):
                if deep and memo is NONE:
                    memo = st.new(Obj("dict", ent={}, base=None), (id(node), "memo"))
                return self.call(st, T("bound", r[1], x), (memo,) if deep else (), {}, node)
        def one(s, k, v):
            """[(state, copy of v)]"""
            if not deep or v.k == "c" or v is ABSENT:
                return [(s, v)]
            if k == "seg":
                t = self.elem_type(v)
                return [(s, v if t in STRISH + ("int", "bool", "float") else app("deepcopy", v))]
            return self._copy(s, v, (node, v), True, memo)
        if o.kind in ("list", "set"):
            cur = [(st, ())]
            for k, v in o.seq:
                cur = [(s2, q + ((k, w),)) for s, q in cur for s2, w in one(s, k, v)]
            return [(s, s.new(Obj(o.kind, seq=q), node)) for s, q in cur]
        if o.kind == "dict" or o.ent is not None:
            cur = [(st, {})]
            for k, v in o.ent.items():
                cur = [(s2, _with(q, k, w)) for s, q in cur for s2, w in one(s, "one", v)]
            outs = []
            for s, q in cur:
                n = o.copy()
                n.ent = q
                n.base = app("deepcopy", n.base) if n.base is not None and deep else n.base
                outs.append((s, s.new(n, node)))
            return outs
        return [(st, st.new(o.copy(), node))]

    # -- itertools
    def x_itertools_chain(self, st, a, kw, node):
        g = st.new(Obj("list", seq=tuple(("one", x) for x in a)), (id(node), "chain"))
        return [(st, st.new(Obj("gen", x=("chain", g)), node))]

    def x_itertools_chain_from_iterable(self, st, a, kw, node):
        return [(st, st.new(Obj("gen", x=("chain", a[0])), node))]

    # -- re
    def x_re_compile(self, st, a, kw, node):
        fl = a[1] if len(a) > 1 else kw.get("flags", ZERO)
        return [(st, app("regex", a[0], fl))]

    def _re_fn(self, st, a, kw, node, name):
        r = app("regex", a[0], kw.get("flags", ZERO))
        return self.re_method(st, r, name, tuple(a[1:]), kw, node)

    def x_re_match(self, st, a, kw, node):
        return self._re_fn(st, a, kw, node, "match")

    def x_re_search(self, st, a, kw, node):
        return self._re_fn(st, a, kw, node, "search")

    def x_re_sub(self, st, a, kw, node):
        return self._re_fn(st, a, kw, node, "sub")

    def x_re_split(self, st, a, kw, node):
        return self._re_fn(st, a, kw, node, "split")

    # -- os / tempfile
    def x_os_path_basename(self, st, a, kw, node):
        x = a[0]
        if x.k == "app" and x.a[0] == "basename":
            return [(st, x)]
        if x is NONE:
            self.throwx(st, "AttributeError", node)
            return []
        if x.k == "c" and isinstance(x.a[1], str):
            return [(st, const(posixpath.basename(x.a[1]), x.a[0]))]
        slash = const("/")
        if self.lacks(st, x, slash):
            return [(st, x)]
        return [(st, mkslice(x, mkint(ladd({app("rfind", x, slash): 1}, lconst(1))), NONE))]

    def x_os_path_splitext(self, st, a, kw, node):
        if a[0] is NONE:
            self.throwx(st, "AttributeError", node)
            return []
        if a[0].k == "c" and isinstance(a[0].a[1], str):
            return [(st, T("tup", *[const(y, a[0].a[0]) for y in posixpath.splitext(a[0].a[1])]))]
        return [(st, T("tup", app("root", a[0]), app("ext", a[0])))]

    def x_os_path_split(self, st, a, kw, node):
        return [(s, T("tup", app("typed", app("x", "os.path.dirname", a[0]), "text"), v)) for s, v in self.x_os_path_basename(st, a, kw, node)]

    def x_os_path_isabs(self, st, a, kw, node):
        x = a[0]
        if x is NONE:
            self.throwx(st, "AttributeError", node)
            return []
        if x.k == "c" and isinstance(x.a[1], str):
            return [(st, const(x.a[1].startswith("/")))]
        return [(st, app("typed", app("x", "os.path.isabs", x), "bool"))]

    def x_os_path_normpath(self, st, a, kw, node):
        x = a[0]
        if x is NONE:
            self.throwx(st, "AttributeError", node)
            return []
        if x.k == "c" and isinstance(x.a[1], str):
            return [(st, const(posixpath.normpath(x.a[1])))]
        return [(st, app("typed", app("x", "os.path.normpath", x), "text"))]

    def x_os_path_join(self, st, a, kw, node):
        if all(x.k == "c" and isinstance(x.a[1], str) for x in a):
            return [(st, const(posixpath.join(*[x.a[1] for x in a])))]
        return [(st, app("typed", app("pathjoin", *a), "text"))]

    def x_os_path_getsize(self, st, a, kw, node):
        self.err(st, node, "OSError")
        x = fresh("size", "int")
        add_lin(st, {x: 1})
        return [(st, x)]

    def _oscall(self, st, a, node, d):
        if self.io_raises:
            self.err(st, node, "OSError", d)
        return [(st, NONE)]

    def x_os_mkdir(self, st, a, kw, node):
        return self._oscall(st, a, node, "mkdir")

    x_os_makedirs = x_os_mkdir
    x_os_remove = x_os_mkdir
    x_os_unlink = x_os_mkdir
    x_os_rmdir = x_os_mkdir
    x_os_rename = x_os_mkdir
    x_os_chmod = x_os_mkdir

    def x_tempfile_NamedTemporaryFile(self, st, a, kw, node):
        if self.io_raises:
            self.err(st, node, "OSError", "temp file")
            self.err(st, node, "IOError", "temp file")
        return [(st, st.new(Obj("inst", cls=T("ext", "tempfile.file"), lazy=True), node))]

    x_tempfile_TemporaryFile = x_tempfile_NamedTemporaryFile

    def x_tempfile_mkstemp(self, st, a, kw, node):
        self.err(st, node, "OSError", "mkstemp")
        return [(st, T("tup", fresh("fd", "int"), fresh("tmpname", "str", ("tmpname",))))]

    def x_io_BytesIO(self, st, a, kw, node):
        x = st.new(Obj("inst", cls=T("ext", "io.BytesIO"), lazy=True, attrs={"$data": a[0] if a else const(""), "$pos": ZERO}), node)
        return [(st, x)]

    def x_io_StringIO(self, st, a, kw, node):
        x = st.new(Obj("inst", cls=T("ext", "io.StringIO"), lazy=True, attrs={"$data": a[0] if a else const(""), "$pos": ZERO}), node)
        if a and self.strkind(st, a[0]) in ("str",):
            self.definite(st, node, "StringIO needs unicode in Python 2")
            self.throwx(st, "TypeError", node)
            return []
        return [(st, x)]

    # -- codecs / urls
    def x_base64_b64decode(self, st, a, kw, node):
        return self._b64(st, a, node, "b64")

    def x_base64_urlsafe_b64decode(self, st, a, kw, node):
        return self._b64(st, a, node, "ub64")

    def _b64(self, st, a, node, op):
        if not self.fails(st, node, "TypeError", op, *a):
            return []
        if self.strkind(st, a[0]) not in ("str", None) and not self.is_ascii(st, a[0]):
            if not self.fails(st, node, "UnicodeEncodeError", "str", a[0]):
                return []
        return [(st, app(op, a[0]))]

    x_base64_standard_b64decode = x_base64_b64decode
    x_base64_decodestring = x_base64_b64decode

    def x_binascii_a2b_base64(self, st, a, kw, node):
        if not self.fails(st, node, "binascii.Error", "b64", *a):
            return []
        return [(st, app("b64", a[0]))]

    def x_base64_urlsafe_b64encode(self, st, a, kw, node):
        return [(st, app("ub64enc", a[0]))]

    def x_base64_b64encode(self, st, a, kw, node):
        return [(st, app("b64enc", a[0]))]

    def x_cgi_valid_boundary(self, st, a, kw, node):
        return self.re_method(st, app("regex", const("^[ -~]{0,200}[!-~]$"), const(0)), "match", [a[0]], {}, node)

    def _quote(self, st, a, kw, node, d, plus=False):
        x = a[0]
        safe = a[1] if len(a) > 1 else kw.get("safe", const("/"))
        k = self.strkind(st, x)
        if d == "urllib":
            if k != "str" and not self.is_ascii(st, x):
                if not self.fails(st, node, "KeyError", "quote", x):
                    return []
        if safe.k == "c" and isinstance(safe.a[1], str):
            s = "".join(sorted(c for c in set(safe.a[1]) if not (c.isascii() and (c.isalnum() or c in "_.-"))))
            safe = const(s, "str")
            if x.k == "c" and isinstance(x.a[1], str) and x.a[1].isascii() and not plus:
                return [(st, const("".join(c if c.isalnum() or c in "_.-" or c in s else "%%%02X" % ord(c) for c in x.a[1]), "str"))]
        return [(st, app("quote", x, safe, *(() if not plus else ("plus",))))]

    def x_fparse_quote(self, st, a, kw, node):
        return self._quote(st, a, kw, node, "fparse")

    def x_fparse_quote_plus(self, st, a, kw, node):
        return self._quote(st, a, kw, node, "fparse", True)

    def x_urllib_quote(self, st, a, kw, node):
        return self._quote(st, a, kw, node, "urllib")

    def x_urllib_quote_plus(self, st, a, kw, node):
        return self._quote(st, a, kw, node, "urllib", True)

    def x_fparse_unquote(self, st, a, kw, node, plus=False):
        enc = a[1] if len(a) > 1 else kw.get("encoding", const("utf-8"))
        errors = a[2] if len(a) > 2 else kw.get("errors", const("replace"))
        if not self.textcodec(st, enc):
            if not (self.fails(st, node, "LookupError", "codec", enc) and self.fails(st, node, "TypeError", "codec", enc)):
                return []
        if not self.is_ascii(st, a[0]) and self.strkind(st, a[0]) in ("str", "text"):
            if not self.fails(st, node, "UnicodeDecodeError", "unicode", a[0]):
                return []
        if not (errors.k == "c" and errors.a[1] in ("replace", "ignore")):
            if not self.fails(st, node, "UnicodeDecodeError", "unquote", a[0], enc, errors):
                return []
        return [(st, app("unquote", a[0], enc, *((errors,) if errors.k != "c" or errors.a[1] != "replace" else ()) + (("plus",) if plus else ())))]

    def x_fparse_unquote_plus(self, st, a, kw, node):
        return self.x_fparse_unquote(st, a, kw, node, True)

    def x_urllib_urlencode(self, st, a, kw, node):
        self.err(st, node, "UnicodeEncodeError", "urlencode")
        return [(st, fresh("urlencode", "str", ("urlencode",) + tuple(a)))]

    def x_fparse_urlencode(self, st, a, kw, node):
        return [(st, fresh("urlencode", "str", ("urlencode",) + tuple(a)))]

    def x_fparse__coerce_args(self, st, a, kw, node):
        for x in a:
            if not self.is_ascii(st, x) and self.strkind(st, x) in ("str", "text", None):
                self.err(st, node, "UnicodeDecodeError", "url")
                break
        return [(st, T("tup", *(list(a) + [T("ext", "$noop")])))]

    def x__S_noop(self, st, a, kw, node):
        return [(st, a[0])]

    def x_fparse__splitnetloc(self, st, a, kw, node):
        return [(st, T("tup", app("netloc", a[0]), app("afternet", a[0])))]

    def x_fparse__splitparams(self, st, a, kw, node):
        return [(st, T("tup", app("noparams", a[0]), app("params", a[0])))]

    def _ntup(self, st, a, names, cls, node):
        if len(a) != len(names):
            self.definite(st, node, "%s takes %d fields, got %d" % (cls, len(names), len(a)))
            self.throwx(st, "TypeError", node)
            return []
        o = Obj("inst", cls=T("ext", cls), attrs=dict(zip(names, a)), lazy=True, seq=tuple(("one", x) for x in a))
        return [(st, st.new(o, node))]

    def x_fparse_SplitResult(self, st, a, kw, node):
        return self._ntup(st, a, ("scheme", "netloc", "path", "query", "fragment"), "fparse.SplitResult", node)

    def x_fparse_ParseResult(self, st, a, kw, node):
        return self._ntup(st, a, ("scheme", "netloc", "path", "params", "query", "fragment"), "fparse.ParseResult", node)

    # -- misc
    def x_datetime_datetime(self, st, a, kw, node):
        if not self.fails(st, node, "ValueError", "date", *a):
            return []
        return [(st, app("x", "datetime", *(list(a) + kwflat(kw))))]

    def x_calendar_timegm(self, st, a, kw, node):
        return [(st, app("typed", app("timegm", a[0]), "int"))]

    def x_importlib_import_module(self, st, a, kw, node):
        x = a[0]
        bad = ["ImportError"]
        if not (isstr(st, x) and entails(st, ladd(lenof(x), lconst(-1)))):
            bad.append("ValueError")
        if len(a) < 2 and "package" not in kw and st.facts.get(app("startswith", x, const("."))) is not False and x.k != "c":
            bad.append("TypeError")
        if x.k != "c":
            bad.append("KeyError")
            if not self.is_ascii(st, x):
                bad.append("UnicodeEncodeError")
        for b in bad:
            if not self.fails(st, node, b, "import", x):
                return []
        return [(st, app("module", x))]

    def x_imp_find_module(self, st, a, kw, node):
        self.err(st, node, "ImportError")
        return [(st, fresh("found", None, ("find_module",) + tuple(a)))]

    def x_codecs_lookup(self, st, a, kw, node):
        if not self.textcodec(st, a[0]):
            if not self.fails(st, node, "LookupError", "lookup", a[0]):
                return []
        return [(st, app("codec", a[0]))]

    def x_unicodedata_category(self, st, a, kw, node):
        x = a[0]
        k = self.strkind(st, x)
        if k == "str" or k == "text":
            if k == "str":
                self.definite(st, node, "unicodedata.category() needs unicode")
            self.throwx(st.fork(), "TypeError", node, "category")
            if k == "str":
                return []
        return [(st, app("typed", app("category", x), "str"))]

    def x_print(self, st, a, kw, node):
        return [(st, NONE)]


STR_ONLY = {"decode", "encode", "find", "rfind", "split", "rsplit", "strip", "lstrip", "rstrip", "lower", "upper", "startswith",
            "endswith", "splitlines", "join", "isdigit", "partition", "rpartition", "format", "ljust", "rjust", "title", "isspace"}


def _with(d, k, v):
    d = dict(d)
    d[k] = v
    return d
