"""C33: names, attributes, signatures and re-raises of the package's own code."""
import builtins
from harness import *
import harness
from flow import scope
from .request import conf

PY2 = frozenset("unicode long unichr xrange raw_input basestring buffer cmp coerce execfile file intern reduce reload apply StandardError "
                "__file__ __name__ __doc__ __package__ __builtins__ __import__ True False None".split())
PY3 = frozenset("BlockingIOError BrokenPipeError ChildProcessError ConnectionAbortedError ConnectionError ConnectionRefusedError "
                "ConnectionResetError FileExistsError FileNotFoundError InterruptedError IsADirectoryError ModuleNotFoundError "
                "NotADirectoryError PermissionError ProcessLookupError RecursionError ResourceWarning StopAsyncIteration TimeoutError "
                "aiter anext ascii breakpoint exec ExceptionGroup BaseExceptionGroup EncodingWarning PythonFinalizationError print "
                "__build_class__ __loader__ __spec__".split()) - {"print"}
NAMES = (frozenset(dir(builtins)) | PY2) - PY3
DICT2 = frozenset("has_key iteritems iterkeys itervalues viewitems viewkeys viewvalues".split())
EXC2 = frozenset(["message"])
SETTINGS = PKG + ".conf.settings.Settings"
BASES = {"dict": dir(dict), "list": dir(list), "tuple": dir(tuple), "set": dir(set), "str": dir(str), "int": dir(int), "object": dir(object)}


def vocabulary():
    import calendar, codecs, collections, contextlib, datetime, decimal, email.message, functools, io, itertools, logging, re, socket, tempfile, threading, types
    out = set(DICT2 | EXC2)
    for t in (str, bytes, bytearray, int, float, complex, list, tuple, dict, set, frozenset, object, type, property, slice, memoryview, range, bool,
              types.FunctionType, types.MethodType, types.ModuleType, types.GeneratorType, types.FrameType, types.TracebackType, types.CodeType,
              io.BytesIO, io.StringIO, io.FileIO, io.BufferedReader, io.BufferedWriter, io.TextIOWrapper, re.Pattern, re.Match, datetime.datetime, datetime.date,
              datetime.time, datetime.timedelta, datetime.tzinfo, decimal.Decimal, collections.OrderedDict, collections.defaultdict, collections.deque,
              collections.Counter, email.message.Message, socket.socket, logging.Logger, threading.Thread, type(threading.Lock()), functools.partial,
              itertools.chain, tempfile._TemporaryFileWrapper, tempfile.SpooledTemporaryFile, codecs.CodecInfo, codecs.StreamReader) + tuple(
                  x for x in vars(builtins).values() if isinstance(x, type) and issubclass(x, BaseException)):
        out |= set(dir(t))
    return frozenset(out | set("""decode next message im_self im_func im_class func_name func_code func_defaults func_globals func_closure func_doc func_dict
        tb_frame tb_lineno tb_next f_back f_code f_locals f_globals gi_frame has_key softspace xreadlines name file delete unlink close_called strerror errno
        filename hostname port username password netloc scheme path query params fragment geturl st_size st_mtime st_mode tm_year tm_mon tm_mday tm_hour
        tm_min tm_sec tm_wday co_filename groups code reason object getbuffer environ version_info major minor micro""".split()))


VOCABULARY = vocabulary()


class Known:
    """the package as the lints see it"""
    def __init__(self, ck):
        self.ck, self.prog, self.eng = ck, ck.prog, ck.engine()
        self.funcs = {q: f for q, f in self.prog.funcs.items() if isinstance(q, str) and q.startswith(PKG + ".") and ".tests" not in q}
        self.classes = {q: c for q, c in self.prog.classes.items() if isinstance(q, str) and q.startswith(PKG + ".") and ".tests" not in q}
        self.mods = {m.name: m for m in self.prog.mods.values() if m.name.startswith(PKG) and ".tests" not in m.name}
        self.stores, self.given = {}, {}      # attribute -> assignments to it on self, on other things
        self.subs = {}
        self.dyn = False
        for q, c in self.classes.items():
            for k in self.mro(q):
                self.subs.setdefault(k, set()).add(q)
        for q, f in self.funcs.items():
            for n in scope(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    d = self.stores if self.isself(f, n.value) else self.given
                    d.setdefault(n.attr, []).append((f, n))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3:
                    if isinstance(n.args[1], ast.Constant):
                        self.given.setdefault(n.args[1].value, []).append((f, None))
                    else:
                        self.dyn = True

    def mro(self, q):
        return [getattr(t, "qual", t) for t in self.eng.mro(q)]

    def owner(self, f):
        """the class a method, or a function nested in one, belongs to"""
        while f is not None:
            if getattr(f, "cls", None) is not None:
                return f.cls.qual if hasattr(f.cls, "qual") else f.cls
            f = getattr(f, "parent", None)
        return None

    def isself(self, f, e):
        return isinstance(e, ast.Name) and e.id == self.selfname(f)

    def selfname(self, f):
        g = f
        while g is not None and getattr(g, "cls", None) is None:
            g = getattr(g, "parent", None)
        if g is None or not isinstance(g.node, ast.FunctionDef) or not g.node.args.args:
            return None
        if any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in g.node.decorator_list):
            return None
        n = g.node.args.args[0].arg
        if g is not f and n in self.bound(f):
            return None
        return None if self.rebound(g, n) else n

    def rebound(self, f, n):
        return any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store) for x in scope(f))

    def bound(self, f):
        a = f.node.args
        out = {x.arg for x in a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x is not None}
        glob = set()
        for n in scope(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {(x.asname or x.name).split(".")[0] for x in n.names}
            elif isinstance(n, ast.Global):
                glob |= set(n.names)
            elif isinstance(n, ast.arg):
                out.add(n.arg)
        return out - glob

    def has(self, q, name):
        """may an object of this class have the attribute?"""
        if q not in self.classes:
            return name in dir(getattr(builtins, q, object)) or name in EXC2
        ks = self.mro(q)
        for k in ks:
            c = self.classes.get(k)
            if c is None:
                if k == "object":
                    if name in BASES["object"]:
                        return True
                elif k in BASES:
                    if name in BASES[k] or k == "dict" and name in DICT2:
                        return True
                else:
                    e = getattr(builtins, k.rsplit(".", 1)[-1], None)
                    if isinstance(e, type) and issubclass(e, BaseException):
                        if name in dir(e) or name in EXC2:
                            return True
                    else:
                        return True     # a base class outside the package
                continue
            if name in c.ns or "__getattr__" in c.ns or "__getattribute__" in c.ns or "*" in c.ns:
                return True
        if name in ("__class__", "__dict__", "__doc__", "__module__"):
            return True
        for f, _ in self.stores.get(name, ()):
            o = self.owner(f)
            if o is None or o in ks or q in self.mro(o):
                return True
        return name in self.given or self.dyn and name in self.stores

    def namespace(self, q, name):
        """what the class (not its instances) has under a name"""
        for k in self.mro(q):
            c = self.classes.get(k)
            if c is not None and name in c.ns:
                return c.ns[name]
            if c is None and k != "object":
                return "?"
        return None

    def anywhere(self, name):
        """does anything, in the package or among what Python gives, have such an attribute?"""
        return name in VOCABULARY or name in self.given or name in self.stores or any(name in c.ns for c in self.classes.values())

    def external(self, f, e):
        """something of a module outside the package?"""
        while isinstance(e, (ast.Attribute, ast.Call, ast.Subscript)):
            e = e.func if isinstance(e, ast.Call) else e.value
        if not isinstance(e, ast.Name):
            return False
        g = f
        while g is not None:
            if e.id in self.bound(g):
                return any(isinstance(n, (ast.Import, ast.ImportFrom)) and any((x.asname or x.name).split(".")[0] == e.id for x in n.names) for n in scope(g))
            g = getattr(g, "parent", None)
        v = self.glob(f.mod, e.id)
        return v is not None and v.k not in ("cls", "func") and not (v.k == "mod" and v.a[0] in self.mods)

    # -- what an expression is, as far as that is certain: a class qual, or None
    def glob(self, mod, name):
        try:
            return self.eng.glob(mod, name)
        except Exception:
            return None

    def ref(self, f, mod, e, shadow=frozenset()):
        """the module, class or function an expression stands for"""
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                if e.id in self.bound(g):
                    return None
                g = getattr(g, "parent", None)
            return self.glob(mod, e.id)
        if isinstance(e, ast.Attribute):
            b = self.ref(f, mod, e.value)
            if b is not None and b.k == "mod":
                m = self.prog.mods.get(b.a[0])
                if m is not None:
                    return self.glob(m, e.attr)
            if b is not None and b.k == "cls":
                v = self.namespace(b.a[0], e.attr)
                return v if isinstance(v, Term) and v.k == "cls" else None
        return None

    def kinds(self, f, e, seen=()):
        """the classes an expression is surely an instance of, one of them (or None itself); None where unknown"""
        if len(seen) > 12 or (f.qual, id(e)) in seen:
            return frozenset()
        seen = seen + ((f.qual, id(e)),)
        if isinstance(e, ast.Constant) and e.value is None:
            return frozenset()
        if isinstance(e, ast.Call):
            r = self.ref(f, f.mod, e.func)
            if r is not None and r.k == "cls" and r.a[0] in self.classes and not self.meta(r.a[0]):
                return frozenset([r.a[0]])
            return None
        if isinstance(e, ast.IfExp):
            return self.join([self.kinds(f, e.body, seen), self.kinds(f, e.orelse, seen)])
        if isinstance(e, ast.BoolOp):
            return self.join([self.kinds(f, v, seen) for v in e.values])
        if self.settings(f, e):
            return frozenset([SETTINGS])
        if isinstance(e, ast.Name):
            a = f.node.args
            if e.id in {x.arg for x in a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x is not None}:
                return None
            return self.join(self.bindings(f, e.id, seen))
        if isinstance(e, ast.Attribute):
            if not self.isself(f, e.value):
                return None
            o, ks = self.owner(f), []
            if o is None or self.namespace(o, e.attr) is not None or e.attr in self.given or self.dyn:
                return None
            for g, n in self.stores.get(e.attr, ()):
                p = self.owner(g)
                if p is not None and p not in self.mro(o) and o not in self.mro(p):
                    continue
                if g is not f and self.superseded(g, n):
                    continue
                v = self.stored(g, n)
                if v is None:
                    return None
                ks.append(self.kinds(g, v, seen))
            return self.join(ks) if ks else None
        return None

    def settings(self, f, e):
        """the settings object every part of the package is given"""
        if f.qual.startswith(SETTINGS.rsplit(".", 1)[0]) or SETTINGS not in self.classes:
            return False
        if isinstance(e, ast.Attribute):
            return e.attr in ("settings", "_settings")
        if not isinstance(e, ast.Name) or e.id not in ("settings", "_settings"):
            return False
        return e.id in {x.arg for x in f.node.args.args} and not self.rebound(f, e.id)

    def caught(self, f, t):
        """the classes of what an except clause catches"""
        if isinstance(t, ast.Tuple):
            return self.join([self.caught(f, x) for x in t.elts])
        r = self.ref(f, f.mod, t)
        if r is not None and r.k == "cls" and r.a[0] in self.classes:
            return frozenset(self.subs.get(r.a[0], {r.a[0]}))
        if isinstance(t, ast.Name) and (r is None or r.k == "ext"):
            e = getattr(builtins, t.id, None)
            if isinstance(e, type) and issubclass(e, BaseException) and e not in (Exception, BaseException):
                return frozenset([t.id])
        return None

    def meta(self, q):
        return any("__new__" in self.classes[k].ns for k in self.mro(q) if k in self.classes)

    def join(self, ks):
        if not ks or any(k is None for k in ks):
            return None
        return frozenset().union(*ks)

    def superseded(self, f, target):
        """is the assignment always followed by another one before anybody else can look?"""
        def direct(s):
            return isinstance(s, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == target.attr and self.isself(f, t.value) for t in s.targets)

        def quiet(s):
            return not any(isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue, ast.Yield)) or isinstance(x, ast.Call) and any(
                self.isself(f, y) for y in [x.func.value if isinstance(x.func, ast.Attribute) else x.func] + x.args) for x in ast.walk(s))

        def block(stmts, found):
            """is the assignment in the block (or below), and superseded?"""
            for i, s in enumerate(stmts):
                inside = any(x is target for x in ast.walk(s))
                if not inside:
                    continue
                if not direct(s):
                    for b in ("body", "orelse", "finalbody"):
                        if isinstance(getattr(s, b, None), list) and block(getattr(s, b), found):
                            return True
                    if isinstance(s, (ast.For, ast.While, ast.Try)):
                        return False
                for t in stmts[i + 1:]:
                    if direct(t):
                        return True
                    if not quiet(t):
                        return False
            return False
        return isinstance(f.node, ast.FunctionDef) and block(f.node.body, None)

    def stored(self, f, target):
        for n in scope(f):
            if isinstance(n, ast.Assign) and any(t is target for t in n.targets):
                return n.value
        return None

    def bindings(self, f, name, seen):
        out = []
        ok = set()
        for n in scope(f):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        ok.add(id(t))
                        out.append(self.kinds(f, n.value, seen))
        for n in scope(f):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) and id(n) not in ok:
                return [None]
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name:
                return [None]
            if isinstance(n, ast.ExceptHandler) and n.name == name:
                out.append(self.caught(f, n.type) if n.type is not None else None)
            if isinstance(n, ast.Global) and name in n.names:
                return [None]
            if isinstance(n, (ast.Import, ast.ImportFrom)) and any((x.asname or x.name).split(".")[0] == name for x in n.names):
                return [None]
        return out or [None]


def guarded(tree):
    """ids of the nodes inside a try statement that expects such failures, or behind hasattr"""
    out = {}

    def walk(n, g):
        out[id(n)] = g
        if isinstance(n, ast.Try):
            names = {x.id for h in n.handlers if h.type is not None for x in ast.walk(h.type) if isinstance(x, ast.Name)}
            for b in n.body:
                walk(b, g | names)
            for b in n.handlers + n.orelse + n.finalbody:
                walk(b, g)
            return
        if isinstance(n, (ast.If, ast.IfExp, ast.BoolOp)):
            t = n.values[0] if isinstance(n, ast.BoolOp) else n.test
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "isinstance", "getattr", "callable") for x in ast.walk(t)):
                g = g | {"AttributeError"}
        for c in ast.iter_child_nodes(n):
            walk(c, g)
    walk(tree, frozenset())
    return out


def names(k, ck):
    """every name that is read exists"""
    for q, f in sorted(k.funcs.items()):
        g = guarded(f.node)
        scopes = []
        p = f
        while p is not None:
            scopes.append(k.bound(p))
            p = getattr(p, "parent", None)
        inner = set().union(*scopes)
        for n in scope(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if n.id in inner:
                    continue
                if n.id in NAMES:
                    ck.obl["names exist"] += 1
                    continue
                v = k.glob(f.mod, n.id)
                late = any(isinstance(x, ast.Global) and n.id in x.names for h in k.funcs.values() if h.mod is f.mod for x in scope(h))
                ok = v is not None and v.k != "missing" or late or "NameError" in g.get(id(n), ())
                ck.need("names exist", ok, where(f), "name %r is not defined" % n.id if v is None else "the imported name %r does not exist" % n.id)
    for m in k.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and n.module:
                for a in n.names:
                    t = k.prog.mods.get(n.module) if not n.level else None
                    if t is None or a.name == "*":
                        continue
                    v = k.glob(t, a.name)
                    ck.need("names exist", v is not None and v.k != "missing" or t.name + "." + a.name in k.prog.mods, m.name[len(PKG) + 1:] or PKG,
                            "%s has no %s" % (t.name, a.name))


def where(f):
    return f.qual[len(PKG) + 1:]


def unbound(k, ck):
    """no local name is read where no path has given it a value"""
    for q, f in sorted(k.funcs.items()):
        if not isinstance(f.node, ast.FunctionDef):
            continue
        a = f.node.args
        params = {x.arg for x in a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x is not None}
        bound = k.bound(f)
        bad = []

        def read(n, d):
            for x in walkin(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in bound and x.id not in d:
                    bad.append(x)

        def walkin(n):
            todo = [n]
            while todo:
                x = todo.pop()
                yield x
                if isinstance(x, (ast.Lambda, ast.FunctionDef, ast.ClassDef, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
                    continue
                todo.extend(ast.iter_child_nodes(x))

        def put(n, d):
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    d.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    d.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    d.update((y.asname or y.name).split(".")[0] for y in x.names)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    d.add(x.name)

        def run(stmts, d):
            """names that may be bound afterwards; None when the end is not reached"""
            for s in stmts:
                if isinstance(s, (ast.Assign, ast.AnnAssign)):
                    if s.value is not None:
                        read(s.value, d)
                    for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                        read(t, d)
                    put(s, d)
                elif isinstance(s, ast.AugAssign):
                    read(s.value, d)
                    if isinstance(s.target, ast.Name) and s.target.id in bound and s.target.id not in d:
                        bad.append(s.target)
                    read(s.target, d)
                    put(s, d)
                elif isinstance(s, ast.If):
                    read(s.test, d)
                    put(s.test, d)
                    x, y = run(s.body, set(d)), run(s.orelse, set(d))
                    if x is None and y is None:
                        return None
                    d = (x or set()) | (y or set())
                elif isinstance(s, (ast.For, ast.While)):
                    read(s.iter if isinstance(s, ast.For) else s.test, d)
                    b = set(d)
                    put(s, b)           # what an earlier turn may have bound
                    run(s.body, set(b))
                    d = b
                    if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and \
                            not any(isinstance(x, ast.Break) for x in ast.walk(s)):
                        return None
                    r = run(s.orelse, set(d))
                    d |= r or set()
                elif isinstance(s, ast.Try):
                    b = set(d)
                    for x in s.body:
                        put(x, b)
                    r = run(s.body, set(d))
                    ends = []
                    for h in s.handlers:
                        c = set(b)
                        if h.type is not None:
                            read(h.type, c)
                        if h.name:
                            c.add(h.name)
                        ends.append(run(h.body, c))
                    if r is not None:
                        r = run(s.orelse, set(r))
                    ends.append(r)
                    c = set(b)
                    for x in s.handlers + s.orelse:
                        put(x, c)
                    fin = run(s.finalbody, set(c))
                    if all(x is None for x in ends) or fin is None:
                        return None
                    d = set().union(*[x for x in ends if x is not None])
                    for x in s.finalbody:
                        put(x, d)
                elif isinstance(s, ast.With):
                    for i in s.items:
                        read(i.context_expr, d)
                        if i.optional_vars is not None:
                            put(i.optional_vars, d)
                    r = run(s.body, set(d))
                    if r is None:
                        for x in s.body:
                            put(x, d)     # a context manager may swallow an exception
                    else:
                        d = r
                elif isinstance(s, ast.Delete):
                    read(s, d)
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            if t.id in bound and t.id not in d:
                                bad.append(t)
                            d.discard(t.id)
                elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    d.add(s.name)
                elif isinstance(s, (ast.Import, ast.ImportFrom)):
                    put(s, d)
                elif isinstance(s, (ast.Return, ast.Raise)):
                    read(s, d)
                    return None
                elif isinstance(s, (ast.Break, ast.Continue)):
                    return None
                else:
                    read(s, d)
                    put(s, d)
            return d

        n0 = sum(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) for x in scope(f))
        run(f.node.body, set(params))
        g = guarded(f.node)
        bad = [x for x in bad if not {"NameError", "UnboundLocalError"} & set(g.get(id(x), ()))]
        ck.obl["locals have a value"] += n0
        for x in bad:
            ck.need("locals have a value", False, where(f), "%r is read where nothing has given it a value" % x.id)


def fits(k, node, call, skip):
    """why a call cannot be bound to the parameters, or None"""
    a = node.args
    ps = [x.arg for x in a.args][skip:]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(x.arg is None for x in call.keywords)
    pos = [x for x in call.args if not isinstance(x, ast.Starred)]
    if len(pos) > len(ps) and not a.vararg:
        return "takes %d arguments, %d are given" % (len(ps), len(pos))
    kws = [x.arg for x in call.keywords if x.arg is not None]
    for w in kws:
        if w not in ps and w not in [x.arg for x in a.kwonlyargs] and not a.kwarg:
            return "has no parameter %r" % w
        if w in ps[:len(pos)]:
            return "is given %r twice" % w
    if not star and not dstar:
        req = ps[:len(ps) - len(a.defaults)] if a.defaults else ps
        for p in req[len(pos):]:
            if p not in kws:
                return "needs %r" % p
    return None


def init_of(k, q):
    for c in k.mro(q):
        ci = k.classes.get(c)
        if ci is None:
            if c == "object":
                return None
            return "?"
        v = ci.ns.get("__init__")
        if v is not None:
            return k.funcs.get(v.a[0]) or "?" if v.k == "func" else "?"
        if "__new__" in ci.ns:
            return "?"
    return None


def method(k, q, name):
    """(function, number of parameters the receiver takes) of a method of a class"""
    v = k.namespace(q, name)
    if not isinstance(v, Term):
        return None
    if v.k == "func" and v.a[0] in k.funcs:
        return k.funcs[v.a[0]], 1
    if v.k in ("cm", "sm") and isinstance(v.a[0], Term) and v.a[0].k == "func" and v.a[0].a[0] in k.funcs:
        return k.funcs[v.a[0].a[0]], 1 if v.k == "cm" else 0
    return None


def calls(k, ck):
    """every call of one of the package's own functions fits its parameters"""
    for q, f in sorted(k.funcs.items()):
        g = guarded(f.node)
        o = k.owner(f)
        for n in scope(f):
            if not isinstance(n, ast.Call) or "TypeError" in g.get(id(n), ()):
                continue
            fs = n.func
            err, name = None, ast.unparse(fs)
            targets = []
            r = k.ref(f, f.mod, fs)
            if r is not None and r.k == "func" and r.a[0] in k.funcs:
                targets = [(k.funcs[r.a[0]], 0)]
            elif r is not None and r.k == "cls" and r.a[0] in k.classes:
                i = init_of(k, r.a[0])
                if i is None:
                    ck.need("calls fit", not n.args and not n.keywords, where(f), "%s() takes no arguments" % name)
                    continue
                if i == "?":
                    if any(x.arg is not None for x in n.keywords) and exception(k, r.a[0]):
                        ck.need("calls fit", False, where(f), "%s takes no keyword arguments" % name)
                    continue
                targets = [(i, 1)]
            elif isinstance(fs, ast.Attribute):
                base = fs.value
                if isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id == "super":
                    if len(base.args) != 2:
                        ck.need("calls fit", False, where(f), "super() needs its arguments in Python 2")
                        continue
                    b = k.ref(f, f.mod, base.args[0])
                    if b is None or b.k != "cls" or b.a[0] not in k.classes or not k.isself(f, base.args[1]):
                        continue
                    rest = k.mro(b.a[0])[1:]
                    if all(x in k.classes for x in k.mro(b.a[0])):
                        ck.need("calls fit", False, where(f), "super() on the classic class %s" % ast.unparse(base.args[0]))
                        continue
                    for c in rest:
                        if c in k.classes and fs.attr in k.classes[c].ns:
                            v = k.classes[c].ns[fs.attr]
                            if isinstance(v, Term) and v.k == "func" and v.a[0] in k.funcs and len(k.subs.get(b.a[0], ())) == 1:
                                targets = [(k.funcs[v.a[0]], 1)]
                            break
                elif k.isself(f, base) and o is not None and o in k.classes:
                    if fs.attr in k.stores or fs.attr in k.given:
                        continue
                    for s in [o]:
                        m = method(k, s, fs.attr)
                        if m is not None:
                            targets.append(m)
                else:
                    b = k.ref(f, f.mod, base)
                    if b is not None and b.k == "cls" and b.a[0] in k.classes:
                        v = k.namespace(b.a[0], fs.attr)
                        if isinstance(v, Term) and v.k == "func" and v.a[0] in k.funcs:
                            targets = [(k.funcs[v.a[0]], 0)]
                        elif isinstance(v, Term):
                            m = method(k, b.a[0], fs.attr)
                            targets = [m] if m is not None else []
                    elif b is None:
                        ks = k.kinds(f, base)
                        if fs.attr in k.stores or fs.attr in k.given:
                            continue
                        if ks is None and fs.attr not in VOCABULARY and not k.external(f, base):
                            ms = [method(k, s, fs.attr) for s in sorted(k.classes) if fs.attr in k.classes[s].ns]
                            if ms and None not in ms:
                                errs = [fits(k, fi.node, n, skip) for fi, skip in ms]
                                ck.need("calls fit", not all(errs), where(f), "%s() %s" % (name, errs[0]))
                            continue
                        for s in sorted(ks or ()):
                            m = method(k, s, fs.attr) if s in k.classes else None
                            if m is not None:
                                targets.append(m)
            for fi, skip in targets:
                if fi.node.decorator_list and not all(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in fi.node.decorator_list):
                    continue
                err = fits(k, fi.node, n, skip)
                ck.need("calls fit", err is None, where(f), "%s() %s" % (name, err))


def exception(k, q):
    for c in k.mro(q):
        if c not in k.classes:
            e = getattr(builtins, c.rsplit(".", 1)[-1], None)
            return isinstance(e, type) and issubclass(e, BaseException)
    return False


def attributes(k, ck):
    """every attribute that is read exists, every attribute that is assigned can be"""
    for q, f in sorted(k.funcs.items()):
        g = guarded(f.node)
        o = k.owner(f)
        for n in scope(f):
            if not isinstance(n, ast.Attribute) or "AttributeError" in g.get(id(n), ()):
                continue
            if n.attr.startswith("__") and n.attr.endswith("__"):
                continue
            if k.isself(f, n.value) and o in k.classes:
                if isinstance(n.ctx, ast.Load):
                    ok = any(k.has(s, n.attr) for s in k.subs.get(o, {o}))
                    ck.need("attributes exist", ok, where(f), "%s has no attribute %r" % (o.rsplit(".", 1)[1], n.attr))
                elif isinstance(n.ctx, ast.Store):
                    v = k.namespace(o, n.attr)
                    if isinstance(v, Term) and v.k == "prop" and not all(x in k.classes for x in k.mro(o)):
                        ck.need("attributes exist", v.a[1] is not NONE, where(f), "assigns to the read-only property %r" % n.attr)
                continue
            if not isinstance(n.ctx, ast.Load):
                continue
            b = k.ref(f, f.mod, n.value)
            if b is not None and b.k == "mod" and b.a[0] in k.mods:
                v = k.glob(k.mods[b.a[0]], n.attr)
                ck.need("attributes exist", v is not None and v.k != "missing" or b.a[0] + "." + n.attr in k.prog.mods, where(f),
                        "%s has no %r" % (b.a[0], n.attr))
            elif b is not None and b.k == "cls" and b.a[0] in k.classes:
                ok = k.has(b.a[0], n.attr) or n.attr in ("mro", "__name__")
                ck.need("attributes exist", ok, where(f), "%s has no %r" % (b.a[0].rsplit(".", 1)[1], n.attr))
            elif b is None:
                ks = k.kinds(f, n.value)
                if not ks:
                    if not k.external(f, n.value):
                        ck.need("attributes exist", k.anywhere(n.attr), where(f), "nothing has an attribute %r (%s)" % (n.attr, ast.unparse(n)))
                else:
                    ck.need("attributes exist", any(k.has(s, n.attr) for s in ks), where(f), "%s is a %s, which has no attribute %r" % (
                        ast.unparse(n.value), " or ".join(sorted(s.rsplit(".", 1)[-1] for s in ks)), n.attr))


class Watch(Check):
    """runs another rule and keeps nothing but the operations that certainly fail"""
    def fail(self, clause, construct, msg, st=None):
        if clause == "operations are possible":
            Check.fail(self, clause, construct, msg, st)

    def minimum(self, clause, n):
        pass


FAILURES = (("name '", "NameError"), ("local variable", "NameError"), ("imported name", "ImportError"), ("cannot import", "ImportError"),
            ("no attribute", "AttributeError"), ("attribute '", "AttributeError"), ("deletes missing", "AttributeError"),
            ("attribute store", "AttributeError"))


OTHER = ("attribute '", "attribute store", "iterating over", "operand is None", "slicing None", "unpacking", "none is not", "int is not", "number is not",
         "list index", "join over", "cannot concatenate", "None is not")     # wrong values rather than wrong interfaces


def watch(w):
    def told(eng, st, node, msg):
        cx = eng.cx
        if msg.startswith(OTHER) or " of none" in msg.lower():
            return
        if cx is None or cx.fi is None or not str(cx.fi.qual).startswith(PKG):
            return
        kind = next((x for p, x in FAILURES if msg.startswith(p)), "TypeError")
        if any(kind in g or kind == "NameError" and "UnboundLocalError" in g for g in eng.guards):
            return
        if kind == "AttributeError" and "attribute '%s'" % cx.fi.node.name in msg:
            return      # a property of something that has no such attribute does not exist either
        w.fail("operations are possible", where(cx.fi), msg, st)
    return told


DUNDER = frozenset("__len__ __iter__ __enter__ __exit__ __repr__ __str__ __nonzero__ __bool__ __del__ __getitem__ __setitem__ __delitem__ "
                   "__contains__ __copy__ __deepcopy__ __getstate__ __eq__ __add__ next __next__ __hash__ __unicode__".split())
BUILD = {"LazyStream": ["K(P)", "K(P, z)"], "MultiPartParser": ["K(M, P, hs, c, enc)"], "HttpRequest": ["K(P, c)", "K()"],
         "QueryDict": ["K(c)", "K(c, q, mutable=True)", "K(c, query_string=q, encoding=enc)"], "MultiValueDict": ["K()", "K(prs)"],
         "ImmutableMultiValueDict": ["K(prs)", "K(prs, mutable=True)"], "ImmutableList": ["K(prs)", "K(prs, warning=t)"], "ChunkIter": ["K(f, z)"],
         "BoundaryIter": ["K(S, bd)"], "InterBoundaryIter": ["K(S, bd)"], "Parser": ["K(S, bd)"],
         "File": ["K(f, n)", "K(f)"], "ContentFile": ["K(b)", "K(b, n)"], "UploadedFile": ["K(f, n, t, z, ch)"],
         "TemporaryUploadedFile": ["K(n, t, z, ch, c)"], "InMemoryUploadedFile": ["K(f, fn, n, t, z, ch)"], "SimpleUploadedFile": ["K(n, b, t)"],
         "Settings": ["K()", "K({})", "K(dct)"], "FileUploadHandler": ["K(r)", "K()"], "TemporaryFileUploadHandler": ["K(r)"],
         "MemoryFileUploadHandler": ["K(r)"], "ConvenientFileUploadHandler": ["K(r)"], "MetaDict": []}
PRE = {"Handler": ["o.handle_raw_input(I, M, cl, bd, c, enc)\ntry:\n    o.new_file(fn, n, t, z, ch, x, te)\nexcept Stop:\n    pass\n" + m
                    for m in ("", "o.receive_data_chunk(b, z)\n", "o.receive_data_chunk(b, z)\no.file_complete(z)\n")],
       "File": ["", "o.close()\n"], "Stream": ["", "o.close()\n"]}
PROTOCOL = {"handle_raw_input": ["I", "M", "cl", "bd", "c", "enc"], "new_file": ["fn", "n", "t", "z", "ch", "x", "te"], "receive_data_chunk": ["b", "z"],
            "file_complete": ["z"]}


def generic_env(ck, e, st, P):
    c = conf(ck, e, st)
    S_, = [p.v for p in ck.script(e, st, "L(P)", {"L": T("cls", ck.cls("utils.datastructures.LazyStream")), "P": P}) if p.kind == "ret"][:1] or [S("stream")]
    return {"P": P, "c": c, "z": S("number", "int"), "M": S("headers"), "hs": S("handlers"), "enc": S("encoding", "str"), "q": S("query", "str"),
            "prs": S("pairs"), "f": S("file object"), "bd": S("boundary", "str"), "n": S("file name", "str"), "b": S("content", "str"), "t": S("content type", "str"),
            "ch": S("charset", "str"), "fn": S("field name", "str"), "dct": S("dictionary", "dict"), "r": S("request"), "I": S("input"), "cl": S("length", "int"),
            "x": S("extra"), "Stop": T("cls", ck.cls("files.uploadhandler.StopFutureHandlers")), "te": S("transfer encoding", "str"), "k": S("argument"), "S": S_}


def members(k, q):
    """[(name, call arguments or None for a value)]"""
    seen, out = set(), []
    for m in k.mro(q):
        ci = k.classes.get(m)
        for n, v in sorted(ci.ns.items()) if ci is not None else ():
            if n in seen or not isinstance(n, str) or not isinstance(v, Term) or n.startswith("_") and n not in DUNDER:
                continue
            seen.add(n)
            if v.k == "prop":
                out.append((n, None))
                if v.a[1] is not NONE:
                    out.append((n + " =", None))
                continue
            fi = method(k, q, n)
            if fi is None:
                continue
            f, skip = fi
            a = f.node.args
            ps = [y.arg for y in a.args][skip:]
            out.append((n, ["k"] * (len(ps) - len(a.defaults))))
            if a.defaults:
                out.append((n, ["k"] * len(ps)))
    return out


def guarded_script(ck, e, st, src, env):
    e.steps = 0
    try:
        return ck.script(e, st, src, env)
    except Exception as b:     # whatever cannot be followed on arguments of any kind is not counted
        ck.notes.append("%s: %s" % (src.replace("\n", "; "), b))
        return []


def operate(ck, k, q):
    """every public operation of every kind of object, on new objects and on closed or busy ones"""
    name = q.rsplit(".", 1)[1]
    from .streams import source
    if name == "HttpRequest":
        return requests(ck, k, q)
    e = ck.engine()
    st = e.start()
    P = source(e, st)
    env = generic_env(ck, e, st, P)
    env["K"] = T("cls", q)
    for src in BUILD.get(name, ()):
        for p in guarded_script(ck, e, st, "result = " + src, env):
            if p.kind != "ret":
                continue
            env["o"] = p.v
            pres = next((v for suf, v in PRE.items() if name.endswith(suf)), [""])
            for pre in pres:
                for n, args in members(k, q):
                    if name == "MultiPartParser" and n != "parse":
                        continue    # its other methods serve parse()
                    args = PROTOCOL.get(n, args)
                    call = "o.%s = k" % n[:-2] if n.endswith(" =") else "result = o.%s%s" % (n, "" if args is None else "(%s)" % ", ".join(args))
                    guarded_script(ck, e, p.st, pre + call, env)
                    ck.obl["public operations"] += 1


def requests(ck, k, q):
    from .request import setup
    e, st, r, P, c = setup(ck)
    env = {"r": r, "P": P, "k": S("argument")}
    pres = ["", "r.parse_request_header()\n"]
    for pre in pres:
        for n, args in members(k, q):
            if n in ("parse", "parse_request_body", "body") and pre:
                continue
            call = "r.%s = k" % n[:-2] if n.endswith(" =") else "result = r.%s%s" % (n, "" if args is None else "(%s)" % ", ".join(args))
            guarded_script(ck, e, st.fork(), pre + call, env)
            ck.obl["public operations"] += 1


def functions(ck, k, f):
    """a public function of a module, with any arguments"""
    from .streams import source
    e = ck.engine()
    st = e.start()
    a = f.node.args
    n = len(a.args)
    for m in sorted({n - len(a.defaults), n}):
        guarded_script(ck, e, st, "result = f(%s)" % ", ".join("a%d" % i for i in range(m)),
                       dict({"a%d" % i: S(a.args[i].arg) for i in range(m)}, f=T("func", f.qual)))
        ck.obl["public operations"] += 1


def operations(w, k):
    todo = [("c", q) for q in sorted(k.classes) if q.rsplit(".", 1)[1] in BUILD]
    todo += [("f", q) for q, f in sorted(k.funcs.items()) if f.cls is None and f.parent is None and not f.node.name.startswith("_")]

    def one(t):
        if t[0] == "c":
            operate(w, k, t[1])
        else:
            functions(w, k, k.funcs[t[1]])
    w.spread(todo, one)


QUICK = "C08 C10 C22 C32 C24 C39 C06 C21 C01 C15 C16 C17 C18 C23 C25 C27 C28 C30 C34 C35 C36 C37 C38".split()


@rule("C33", what="Lints over every function of the package: every name, imported name and attribute of self, of a module, of a class or of "
                  "something surely built by one of the package's classes exists, no local is read where no path has bound it, no read-only "
                  "property is assigned, and every call of the package's own functions, methods and constructors fits the parameters. "
                  "Beyond that, the abstract interpretation of the public operations that the other rules do is watched: no abstract value "
                  "meets an operation its type certainly does not have (missing attribute, wrong arguments, calling what cannot be "
                  "called, misuse of re-raise helpers), unless the code expects that exception.")
def c33(ck):
    k = Known(ck)
    names(k, ck)
    unbound(k, ck)
    calls(k, ck)
    attributes(k, ck)
    for c in ("names exist", "calls fit", "attributes exist"):
        ck.minimum(c, 20)
    for q in k.funcs:
        ck.analysed.add(q)
    jobs = QUICK if ck.tier == "quick" else [p for p in RULES if p not in ("C33", "C14")]
    for p in ["operations"] + jobs:
        w = Watch("C33", "quick")
        Engine.collector = watch(w)
        try:
            if p == "operations":
                operations(w, k)
            else:
                RULES[p][0](w)
        except (Budget, RecursionError, AnalysisBroken) as x:
            w.notes.append("%s: %s" % (p, x))
        finally:
            Engine.collector = None
        w.finish()
        for key, v in w.findings.items():
            ck.findings.setdefault(key, v)
            ck.bad[key[0]] += 1
        ck.obl["public operations"] += w.obl["public operations"] if p == "operations" else 0
        ck.obl["operations are possible"] += w.ncalls
        ck.notes += ["%s: %s" % (p, x) for x in w.notes + w.incomplete]
        ck.nsteps += w.nsteps
        ck.ncalls += w.ncalls
        ck.npaths += w.npaths
        ck.nloops += w.nloops
