"""The abstract interpreter: expressions, statements, calls, exceptions, loops by fixpoint."""
import ast
import relang
import itertools
from terms import T, Term, app, const, NONE, TRUE, FALSE, ZERO, ONE, show, ladd, lscale, lconst, lkey
from state import (Budget, State, Obj, ABSENT, typeof, isstr, STRISH, fresh, lin, mkint, lenof, seqlen, mkslice, mkcat, flat, subst,
                   lsubst, subterms, entails, entails_eq, add_lin, contradictory)
from prog import Program, FuncInfo, ClassInfo, PY2_EXC, EXC_ALIAS, BUILTINS, assigned_names, AnalysisBroken
import models
import texts

CAP = 40
MAXDEPTH = 40


INPLACE = {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__", "BitOr": "__ior__", "BitAnd": "__iand__", "Mod": "__imod__"}


class Rule:
    """hooks of a rule; the engine calls them while it interprets"""
    def call(self, eng, st, fn, args, kw, node):
        return None

    def store(self, eng, st, obj, name, val, node):
        pass

    def substore(self, eng, st, obj, key, val, node):
        pass

    def definite(self, eng, st, node, msg):
        pass

    def on_yield(self, eng, st, val, node):
        pass

    def unbounded(self, eng, node):
        pass

    def undecided(self, eng, text, node):
        pass

    def loop_head(self, eng, st, node):
        pass

    def loop_back(self, eng, head, back, node):
        pass


class Cx:
    __slots__ = ("fi", "fid", "parents", "ret", "brk", "cont", "on_yield", "cls", "mod", "caught", "depth", "live", "up", "birth0")

    def __init__(self, fi, fid, parents, mod, cls, depth=0):
        self.fi, self.fid, self.parents, self.mod, self.cls = fi, fid, parents, mod, cls
        self.ret, self.brk, self.cont, self.on_yield, self.caught, self.depth = [], [], [], None, None, depth
        self.live = None
        self.up = None
        self.birth0 = None


class Engine(models.Models):
    collector = None    # f(engine, state, node, message): told of operations that certainly fail

    def __init__(self, prog, rule=None):
        self.prog = prog
        self.rule = rule or Rule()
        self.exc = []
        self.cx = None
        self.sinks = []
        self.dry = 0
        self.custom = set()   # loops over iterators with a next() of their own
        self.guards = []      # the exceptions the enclosing try statements name
        self.contracts = {}     # qualified name -> fn(eng, st, args, kw, node) -> outcomes or None
        self.ext_contracts = {}  # dotted name / ".method" -> same, with the receiver first for methods
        self.stack = []
        self.steps = 0
        self.max_steps = 400000
        self.recur = 2
        self.analysed = set()
        self.calls = 0
        self.loops = 0
        self.keep_facts = False     # decision tables: never join states with different facts
        self.maxparts = 16
        self.unroll = 0             # run loops round by round this often before widening
        self.cap = CAP
        self.io_raises = True
        self.maps = False           # summarise list-building loops as map segments
        self.link()

    # ------------------------------------------------------------------------------------------ linking
    def link(self):
        P = self.prog
        if getattr(P, "mstate", None) is not None:
            self.mstate = P.mstate
            return
        self.mstate = P.mstate = State()
        self._linking = set()
        for c in list(P.classes.values()):
            self._bases(c)
        for m in P.mods.values():
            for n in list(m.ns):
                self.glob(m, n)
        for c in list(P.classes.values()):
            for n in list(c.ns):
                self.clsval(c, n)
        P.mstate.facts.clear()

    def _bases(self, c):
        out = []
        for b in c.node.bases:
            out.append(self._static_name(b, c.mod, c))
        c.bases = [b for b in out if b is not None]

    def _static_name(self, e, mod, cls=None):
        if isinstance(e, ast.Name):
            v = self.glob(mod, e.id)
            if v is None and e.id in BUILTINS:
                v = T("ext", e.id)
            return v
        if isinstance(e, ast.Attribute):
            b = self._static_name(e.value, mod, cls)
            if b is None:
                return None
            if b.k == "mod":
                return self.glob(self.prog.mods.get(b.a[0]), e.attr) if b.a[0] in self.prog.mods else T("mod", b.a[0] + "." + e.attr)
            if b.k == "ext":
                return T("ext", b.a[0] + "." + e.attr)
            if b.k == "cls":
                return self.clsval(self.prog.classes[b.a[0]], e.attr)
        return None

    def glob(self, mod, name):
        """value of a module-level name (None: undefined)"""
        if mod is None:
            return None
        v = mod.ns.get(name)
        if v is None:
            # a submodule of a package
            q = mod.name + "." + name
            if q in self.prog.mods:
                return T("mod", q)
            return None
        if isinstance(v, Term):
            return v
        key = (mod.name, name)
        if key in self._linking:
            return T("ext", mod.name + "." + name)
        self._linking.add(key)
        try:
            r = self._lazy(v, mod, None, name)
        finally:
            self._linking.discard(key)
        mod.ns[name] = r
        return r

    def clsval(self, c, name):
        v = c.ns.get(name)
        if v is None or isinstance(v, Term):
            return v
        key = (c.qual, name)
        if key in self._linking:
            return T("ext", c.qual + "." + name)
        self._linking.add(key)
        try:
            r = self._lazy(v, c.mod, c, name)
        finally:
            self._linking.discard(key)
        c.ns[name] = r
        return r

    def _lazy(self, v, mod, cls, name):
        if v[0] == "from":
            b = self.prog.link(name, v)
            if b is not None:
                r = self.glob(self.prog.mods[b], v[2])
                if r is None:
                    return T("missing", b + "." + v[2])
                return r
            if any(k == v[1] or k.startswith(v[1] + ".") for k in self.prog.mods):
                q = v[1] + "." + v[2]
                return T("mod", q) if any(k == q or k.startswith(q + ".") for k in self.prog.mods) else T("missing", q)
            return T("ext", canon_ext(v[1] + "." + v[2]))
        if v[0] == "deco":
            return v[2]
        if v[0] in ("expr", "item", "aug"):
            if v[0] == "aug":
                return T("ext", mod.name + "." + name)
            e = v[1]
            st = self.mstate
            cx, exc = self.cx, self.exc
            self.cx, self.exc = Cx(None, ("m", mod.name), [], mod, cls), []
            self.dry += 1
            rule, self.rule = self.rule, Rule()
            try:
                outs = self.ev(e, st.fork())
                if len(outs) == 1:
                    s2, r = outs[0]
                    for oid, o in s2.heap.items():
                        o.birth = 0
                    self.mstate.heap, self.mstate.cnt = s2.heap, s2.cnt
                    if v[0] == "item":
                        it = self.exact_items(s2, r)
                        if it is not None and v[2] < len(it):
                            return it[v[2]]
                    else:
                        return r
            except (Budget, RecursionError):
                pass
            finally:
                self.cx, self.exc, self.rule = cx, exc, rule
                self.dry -= 1
            return T("ext", (cls.qual if cls else mod.name) + "." + name)
        return T("ext", mod.name + "." + name)

    def start(self):
        st = State()
        st.heap = dict(self.mstate.heap)
        st.cnt = dict(self.mstate.cnt)
        st.nid = 1
        return st

    # ------------------------------------------------------------------------------------------ classes
    def mro(self, q):
        """linearised bases: ClassInfo objects and external names"""
        c = self.prog.classes[q]
        if c._mro is None:
            out = [c]
            tails = []
            for b in c.bases:
                if b.k == "cls":
                    tails.append(self.mro(b.a[0]))
                elif b.k == "ext":
                    tails.append([b.a[0]])
            flat_ = [x for t in tails for x in t]
            for i, x in enumerate(flat_):
                if x not in flat_[i + 1:]:
                    out.append(x)
            c._mro = out
        return c._mro

    def newstyle(self, q):
        return any(isinstance(x, str) for x in self.mro(q))

    def lookup(self, q, name, after=None):
        """(owner, value) of a class attribute; owner is an external base name for inherited builtins"""
        if q not in self.prog.classes:
            return None
        m = self.mro(q)
        if after is not None:
            i = [j for j, x in enumerate(m) if not isinstance(x, str) and x.qual == after]
            m = m[i[0] + 1:] if i else m
        for x in m:
            if isinstance(x, str):
                if models.ext_base_has(x, name):
                    return x, T("extattr", x, name)
            else:
                v = self.clsval(x, name)
                if v is not None:
                    return x, v
        return None

    def extbase(self, q):
        for x in self.mro(q):
            if isinstance(x, str) and x != "object":
                return x
        return None

    def is_exc_class(self, t):
        if t.k == "ext":
            return excname(t.a[0]) in PY2_EXC
        if t.k == "cls":
            b = self.extbase(t.a[0])
            return b is not None and excname(b) in PY2_EXC
        return False

    def subclass(self, a, b):
        """is class a (cls/ext term) a subclass of b?  True / False / None"""
        if a is b:
            return True
        if a.k == "cls":
            for x in self.mro(a.a[0]):
                if isinstance(x, str):
                    r = self.subclass(T("ext", x), b)
                    if r:
                        return True
                elif T("cls", x.qual) is b:
                    return True
            return False
        if a.k == "ext" and b.k == "ext":
            n, bn = excname(a.a[0]), excname(b.a[0])
            while n is not None:
                if n == bn:
                    return True
                n = PY2_EXC.get(n)
            if excname(a.a[0]) in PY2_EXC:
                return False
            if bn == "object":
                return True
            if (n0 := excname(a.a[0])) in ("dict", "list", "tuple", "str", "unicode", "int", "set", "bool", "float"):
                return n0 == "bool" and bn == "int" or (n0 in ("str", "unicode") and bn == "basestring")
            return None
        if a.k == "ext" and b.k == "cls":
            return False
        return None

    # ------------------------------------------------------------------------------------------ exceptions
    def throw(self, st, exc, node=None):
        st.note(node, "raises %s" % self.excdesc(st, exc)) if node is not None else None
        self.exc.append((st, exc))

    def throwx(self, st, name, node=None, detail=None, args=()):
        self.throw(st, T("exc", name, detail, args), node)

    def excdesc(self, st, exc):
        return self.excclass(st, exc)

    def excclass(self, st, exc):
        if exc.k == "exc":
            return exc.a[0]
        o = st.get(exc)
        if o is not None and o.cls is not None:
            return o.cls.a[0]
        if exc.k in ("cls", "ext"):
            return exc.a[0]
        return "?"

    def excmatch(self, st, exc, cls):
        """does the exception match the class?  True / False / None"""
        if cls.k == "tup":
            rs = [self.excmatch(st, exc, c) for c in cls.a]
            return True if True in rs else (None if None in rs else False)
        it = self.exact_items(st, cls) if cls.k == "obj" else None
        if it is not None:
            return self.excmatch(st, exc, T("tup", *it))
        n = self.excclass(st, exc)
        c = T("cls", n) if n in self.prog.classes else T("ext", n)
        if n == "?":
            return None
        if cls.k not in ("cls", "ext"):
            return None
        return self.subclass(c, cls)

    # ------------------------------------------------------------------------------------------ conditions
    def split(self, st, v, node=None):
        """(states where v is true, states where v is false)"""
        k = v.k
        if k == "c":
            return ([st], []) if v.a[1] else ([], [st])
        if k == "tup":
            return ([st], []) if v.a else ([], [st])
        if k in ("func", "clo", "bound", "cls", "mod", "cm", "sm", "exc", "extattr", "super", "missing"):
            return [st], []
        if k == "ext":
            return [st], []
        if k == "obj":
            o = st.get(v)
            if o.kind in ("list", "set") or (o.kind == "inst" and o.seq is not None):
                n, _ = seqlen(o.seq or ())
                return self.split_lin(st, ladd(n, lconst(-1)))
            if o.kind == "inst":
                for nm in ("__nonzero__", "__len__"):
                    r = self.lookup(o.cls.a[0], nm)
                    if r and not isinstance(r[0], str):
                        T_, F_ = [], []
                        for s2, x in self.call(st, T("bound", r[1], v), (), {}, node):
                            a, b = self.split(s2, x, node)
                            T_ += a
                            F_ += b
                        return T_, F_
                if o.ent is None:
                    return [st], []
            if o.kind == "dict" or o.ent is not None:
                if any(x is not ABSENT for x in o.ent.values()):
                    return [st], []
                if o.base is None:
                    return [], [st]
                return self.split_atom(st, app("truth", o.base))
            return [st], []
        if k == "ge0":
            return self.split_lin(st, dict(v.a[0]))
        ty = typeof(st, v)
        if k == "app":
            op = v.a[0]
            if op == "not":
                a, b = self.split(st, v.a[1], node)
                return b, a
            if op == "and":
                a, b = self.split(st, v.a[1], node)
                A, B = [], list(b)
                for s in a:
                    x, y = self.split(s, v.a[2], node)
                    A += x
                    B += y
                return A, B
            if op == "or":
                a, b = self.split(st, v.a[1], node)
                A, B = list(a), []
                for s in b:
                    x, y = self.split(s, v.a[2], node)
                    A += x
                    B += y
                return A, B
            if op == "eqz":
                return self.split_eqz(st, dict(v.a[1]))
            if op == "truth":
                if v.a[1].k != "sym" or typeof(st, v.a[1]) is not None:
                    if not (v.a[1].k == "app" and v.a[1] is v):
                        if typeof(st, v.a[1]) is not None:
                            return self.split(st, v.a[1], node)
                return self.split_atom(st, v)
            if ty == "bool":
                return self.split_atom(st, v)
        if ty in STRISH:
            return self.split_lin(st, ladd(lenof(v), lconst(-1)))
        if ty == "int":
            t, f = [], []
            z, nz = self.split_eqz(st, lin(v))
            return nz, z
        if ty in ("list", "tuple", "seq"):
            return self.split_lin(st, ladd({app("n", v): 1}, lconst(-1)))
        if ty == "bool":
            return self.split_atom(st, v)
        if k == "app" and v.a[0] == "match":
            b, a = self.split_atom(st, app("isnone", v))
            return a, b
        return self.split_atom(st, app("truth", v))

    def split_lin(self, st, l):
        a, b = st.fork(), st.fork()
        ra = add_lin(a, l)
        rb = add_lin(b, ladd(lscale(l, -1), lconst(-1)))
        return ([a] if ra else []), ([b] if rb else [])

    def split_eqz(self, st, l):
        """(states where l == 0, states where l != 0)"""
        if set(l) <= {None}:
            return ([st], []) if l.get(None, 0) == 0 else ([], [st])
        z = st.fork()
        zs = [z] if add_lin(z, l) and add_lin(z, lscale(l, -1)) else []
        nz = []
        a = st.fork()
        if add_lin(a, ladd(l, lconst(-1))):
            nz.append(a)
        b = st.fork()
        if add_lin(b, ladd(lscale(l, -1), lconst(-1))):
            nz.append(b)
        return zs, nz

    def split_atom(self, st, atom):
        f = st.facts.get(atom)
        if f is not None:
            return ([st], []) if f else ([], [st])
        a, b = self.assume(st.fork(), atom, True), self.assume(st.fork(), atom, False)
        return ([a] if a else []), ([b] if b else [])

    def assume(self, st, atom, val):
        """add a fact; None when it contradicts what is known"""
        f = st.facts.get(atom)
        if f is not None:
            return st if f == val else None
        if atom.k == "c":
            return st if bool(atom.a[1]) == val else None
        if atom.k == "ge0":
            l = dict(atom.a[0])
            return st if add_lin(st, l if val else ladd(lscale(l, -1), lconst(-1))) else None
        if atom.k == "app" and atom.a[0] == "not":
            return self.assume(st, atom.a[1], not val)
        op = atom.a[0] if atom.k == "app" else None
        if op == "eqz":
            z, nz = self.split_eqz(st, dict(atom.a[1]))
            r = z if val else nz
            return r[0] if r else None   # a disequality may keep one side only; callers use split() for both
        if op == "truth":
            x = atom.a[1]
            if st.facts.get(app("isnone", x)) is True and val:
                return None
            if val:
                st.facts[app("isnone", x)] = False
        elif op == "isnone":
            x = atom.a[1]
            ty = typeof(st, x)
            if ty is not None and ty != "none":
                return None if val else st
            if val:
                if st.facts.get(app("truth", x)) is True:
                    return None
                st.facts[app("truth", x)] = False
                if st.facts.get(app("val", x)) not in (None, NONE):
                    return None
            elif x.k == "app" and x.a[0] == "match" and x.a[1].k == "app" and x.a[1].a[0] == "regex" and x.a[1].a[1].k == "c" and x.a[1].a[2].k == "c" \
                    and isstr(st, x.a[2]):
                n = relang.groupmin(x.a[1].a[1].a[1], x.a[1].a[2].a[1], 0)
                if n and not add_lin(st, ladd(lenof(x.a[2]), lconst(-n))):
                    return None
        elif op == "eq":
            x, y = atom.a[1], atom.a[2]
            if y.k != "c" and x.k == "c":
                x, y = y, x
            if val:
                vx = st.facts.get(app("val", x))
                vy = y if y.k == "c" else st.facts.get(app("val", y))
                if vx is not None and vy is not None and not same_const(vx, vy):
                    return None
                if y.k == "c":
                    if vx is None:
                        for (a2, b2) in list(st.facts.items()):
                            if a2.k == "app" and a2.a[0] == "eq" and b2 is False and x in a2.a[1:]:
                                o = a2.a[2] if a2.a[1] is x else a2.a[1]
                                if o.k == "c" and same_const(o, y):
                                    return None
                        st.facts[app("val", x)] = y
                    if y is not NONE:
                        if st.facts.get(app("isnone", x)) is True:
                            return None
                        st.facts[app("isnone", x)] = False
                    if isinstance(y.a[1], str):
                        if st.facts.get(app("truth", x)) is (not bool(y.a[1])):
                            return None
                        st.facts[app("truth", x)] = bool(y.a[1])
                if isstr(st, x) or isstr(st, y):
                    d = ladd(lenof(x), lenof(y), -1)
                    if not add_lin(st, d) or not add_lin(st, lscale(d, -1)):
                        return None
                if y.k == "c" and isinstance(y.a[1], str) and not self._prefix_ok(st, x, y.a[1]):
                    return None
            else:
                vx = st.facts.get(app("val", x))
                vy = y if y.k == "c" else st.facts.get(app("val", y))
                if vx is not None and vy is not None and same_const(vx, vy):
                    return None
        elif op in ("startswith", "endswith"):
            x, y = atom.a[1], atom.a[2]
            v = st.facts.get(app("val", x))
            if v is not None and y.k == "c" and isinstance(v.a[1], str):
                r = getattr(v.a[1], op)(y.a[1])
                return st if r == val else None
            if val and not add_lin(st, ladd(lenof(x), lenof(y), -1)):
                return None
            if val and op == "startswith" and x.k == "app" and x.a[0] == "group" and y.k == "c" and len(y.a[1]) == 1:
                n = self.groupmin(x, y.a[1])
                if n is not None and not add_lin(st, ladd(lenof(x), lconst(-n))):
                    return None
            if y.k == "c":
                for a2, b2 in list(st.facts.items()):
                    if a2.k == "app" and a2.a[0] == op and a2.a[1] is x and a2.a[2].k == "c":
                        p, q = y.a[1], a2.a[2].a[1]
                        w = (lambda s, t: s.startswith(t)) if op == "startswith" else (lambda s, t: s.endswith(t))
                        if val and b2 and not (w(p, q) or w(q, p)):
                            return None
                        if val and not b2 and w(p, q):
                            return None
                        if not val and b2 and w(q, p):
                            return None
        elif op == "isinst":
            r = self.isinst_known(st, atom.a[1], atom.a[2])
            if r is not None:
                return st if r == val else None
            if val:
                st.facts[app("isnone", atom.a[1])] = False
        elif op == "in":
            v = st.facts.get(app("val", atom.a[2]))
        st.facts[atom] = val
        return st

    def _prefix_ok(self, st, x, s):
        for a2, b2 in st.facts.items():
            if a2.k == "app" and a2.a[0] in ("startswith", "endswith") and a2.a[1] is x and a2.a[2].k == "c":
                if getattr(s, a2.a[0])(a2.a[2].a[1]) != b2:
                    return False
        return True

    def decide(self, st, v):
        """True / False when v is decided in st, None otherwise"""
        a, b = self.split(st.fork(), v)
        if a and not b:
            return True
        if b and not a:
            return False
        return None

    def cond(self, e, st):
        """branch on an expression, short-circuiting"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur, done = [st], []
            for v in e.values:
                nxt = []
                for s in cur:
                    a, b = self.cond(v, s)
                    if isand:
                        nxt += a
                        done += b
                    else:
                        nxt += b
                        done += a
                cur = nxt
            return (cur, done) if isand else (done, cur)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            a, b = self.cond(e.operand, st)
            return b, a
        A, B = [], []
        for s, v in self.ev(e, st):
            a, b = self.split(s, v, e)
            A += a
            B += b
        return A, B

    # ------------------------------------------------------------------------------------------ comparisons
    def isnone_t(self, st, x):
        if x is NONE:
            return TRUE
        if x.k in ("c", "tup", "obj", "func", "clo", "bound", "cls", "ext", "mod", "exc", "ge0", "super", "extattr"):
            return FALSE
        ty = typeof(st, x)
        if ty is not None:
            return TRUE if ty == "none" else FALSE
        return app("isnone", x)

    def cmp_eq(self, st, a, b):
        if a is b:
            return TRUE
        if a.k == "c" and b.k == "c":
            return TRUE if same_const(a, b) else FALSE
        if a is NONE:
            return self.isnone_t(st, b)
        if b is NONE:
            return self.isnone_t(st, a)
        if typeof(st, a) == "bool" and typeof(st, b) == "bool":
            return mk_or(mk_and(a, b), mk_and(mk_not(a), mk_not(b)))
        if a.k == "tup" and b.k == "tup":
            if len(a.a) != len(b.a):
                return FALSE
            r = TRUE
            for x, y in zip(a.a, b.a):
                r = mk_and(r, self.cmp_eq(st, x, y))
            return r
        for x, y in ((a, b), (b, a)):
            o = st.get(x)
            if o is not None and (o.kind == "list" or o.seq is not None):
                o2 = st.get(y)
                if o2 is not None and o2.seq is not None:
                    if o.seq == o2.seq:
                        return TRUE
                    n1, n2 = seqlen(o.seq)[0], seqlen(o2.seq)[0]
                    if not o2.seq:
                        return T_eqz(n1)
                    if not o.seq:
                        return T_eqz(n2)
                    return app("eq", x, y)
                if y.k == "c" or typeof(st, y) in ("str", "unicode", "text", "int", "bool", "float", "none"):
                    return FALSE
                # unknown value compared with a list display
                return app("eq", y, app("listc", *[app(k, z) for k, z in o.seq])) if True else FALSE
            if o is not None and o.kind in ("dict", "set") and y.k == "c":
                return FALSE
        ta, tb = typeof(st, a), typeof(st, b)
        if ta and tb:
            ca = "s" if ta in STRISH else ("i" if ta in ("int", "bool") else ta)
            cb = "s" if tb in STRISH else ("i" if tb in ("int", "bool") else tb)
            if ca != cb and {ca, cb} != {"list", "obj"}:
                return FALSE
            if ca == "i" and ta == tb == "int":
                return T_eqz(ladd(lin(a), lin(b), -1))
        if (ta == "int" and tb is None) or (tb == "int" and ta is None):
            return T_eqz(ladd(lin(a), lin(b), -1))
        if a.k == "c":
            a, b = b, a
        # canonical string idioms
        if b.k == "c" and isinstance(b.a[1], str):
            s = b.a[1]
            if a.k == "app" and a.a[0] == "slice":
                x, lo, hi = a.a[1], a.a[2], a.a[3]
                if lo is NONE and hi.k == "c" and isinstance(hi.a[1], int) and hi.a[1] == len(s) and s:
                    return self.starts(x, b)
                if hi is NONE and lo.k == "c" and isinstance(lo.a[1], int) and lo.a[1] == -len(s) and s:
                    return self.starts(x, b, "endswith")
            if a.k == "app" and a.a[0] == "char" and len(s) == 1 and a.a[2].k == "c":
                if a.a[2].a[1] == 0:
                    return self.starts(a.a[1], b)
                if a.a[2].a[1] == -1:
                    return self.starts(a.a[1], b, "endswith")
            if s == "" and (isstr(st, a)):
                return T_eqz(lenof(a))
            va = st.facts.get(app("val", a))
            if va is not None:
                return TRUE if same_const(va, b) else FALSE
        elif b.k != "c" and a.n > b.n:
            a, b = b, a
        return app("eq", a, b)

    def cmp_order(self, st, op, a, b):
        """a op b with op in < <= > >="""
        if op == ">":
            return self.cmp_order(st, "<", b, a)
        if op == ">=":
            return self.cmp_order(st, "<=", b, a)
        if a is b:
            return TRUE if op == "<=" else FALSE
        if a.k == "c" and b.k == "c":
            x, y = a.a[1], b.a[1]
            if x is None or y is None:   # Python 2: None sorts before everything
                r = (x is None and y is not None) or (op == "<=" and x is None and y is None)
                return TRUE if r else FALSE
            try:
                return TRUE if (x < y if op == "<" else x <= y) else FALSE
            except TypeError:
                return app("lt" if op == "<" else "le", a, b)
        ta, tb = typeof(st, a), typeof(st, b)
        if a is NONE and tb is not None:
            return TRUE
        if b is NONE and ta is not None:
            return FALSE
        if ta in STRISH or tb in STRISH or ta in ("list", "tuple") or tb in ("list", "tuple") or ta == "float" or tb == "float":
            return app("lt" if op == "<" else "le", a, b)
        if a is NONE or b is NONE:
            return app("lt" if op == "<" else "le", a, b)
        l = ladd(lin(b), lin(a), -1)
        if op == "<":
            l = ladd(l, lconst(-1))
        if set(l) <= {None}:
            return TRUE if l.get(None, 0) >= 0 else FALSE
        return T("ge0", lkey(l))

    def cmp_in(self, st, x, c):
        if c.k == "tup":
            items = list(c.a)
        else:
            items = self.exact_items(st, c)
        if items is not None:
            r = FALSE
            for y in items:
                r = mk_or(r, self.cmp_eq(st, x, y))
            return r
        if c.k == "c" and isinstance(c.a[1], str):
            if x.k == "c" and isinstance(x.a[1], str):
                return TRUE if x.a[1] in c.a[1] else FALSE
            if x.k == "app" and x.a[0] == "char" and len(c.a[1]) <= 4:
                r = FALSE
                for y in sorted(set(c.a[1])):
                    r = mk_or(r, self.cmp_eq(st, x, const(y)))
                return r
            return app("in", x, c)
        if isstr(st, c):
            if x.k == "c" and isinstance(x.a[1], str) and texts.structured(c):
                r = texts.find(st, c, x.a[1])
                if r is not None:
                    return FALSE if r == "none" else TRUE
            if x.k == "c" and c.k == "app" and c.a[0] == "cat" and any(
                    p.k == "c" and isinstance(p.a[1], str) and x.a[1] in p.a[1] for p in c.a[1:]):
                return TRUE
            if x.k == "c" and isinstance(x.a[1], str) and len(x.a[1]) == 1 and self.lacks(st, c, x):
                return FALSE
            return T("ge0", lkey(lin(app("find", c, x))))
        return app("in", x, c)

    def isinst_known(self, st, x, cls):
        """isinstance decided by the abstract value?  True / False / None"""
        if cls.k == "tup":
            rs = [self.isinst_known(st, x, c) for c in cls.a]
            return True if True in rs else (None if None in rs else False)
        o = st.get(x)
        if o is not None and o.cls is not None:
            if o.cls.k == "cls" or cls.k == "ext":
                return self.subclass(o.cls, cls)
        if x.k == "exc":
            return self.excmatch(st, x, cls)
        ty = typeof(st, x)
        if cls.k == "ext":
            n = {"bytes": "str", "long": "int"}.get(cls.a[0], cls.a[0])
            if n == "object":
                return True
            if ty is None:
                if st.facts.get(app("isnone", x)) is True:
                    return False
                return None
            if n == "basestring":
                return ty in STRISH
            if ty == "text":
                return None if n in ("str", "unicode") else False
            if ty in ("inst", "obj", "gen", "fn", "seq"):
                return None if n not in ("str", "unicode", "int", "bool") else False
            if n == "int" and ty == "bool":
                return True
            if n in ("collections.Mapping",):
                return ty == "dict"
            return ty == n
        if cls.k == "cls":
            if ty is not None and ty not in ("inst", "obj", "dict", "list", "tuple"):
                return False
            if ty in ("dict", "list", "tuple") and x.k in ("obj", "tup"):
                return False
            if x.k in ("c", "func", "cls", "ext", "mod", "clo", "bound"):
                return False
        return None

    # ------------------------------------------------------------------------------------------ expressions
    def ev(self, e, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget")
        m = getattr(self, "e_" + e.__class__.__name__, None)
        if m is None:
            return [(st, fresh("expr:" + e.__class__.__name__))]
        return m(e, st)

    def evs(self, es, st):
        """evaluate a list of expressions left to right: [(st, (v...))]"""
        outs = [(st, ())]
        for e in es:
            nxt = []
            for s, vs in outs:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + (v,)))
            outs = nxt
        return outs

    def e_Constant(self, e, st):
        v = e.value
        if isinstance(v, str) and e.kind == "u":
            return [(st, const(v, "unicode"))]
        if v is Ellipsis or isinstance(v, complex):
            return [(st, fresh("const"))]
        return [(st, const(v))]

    def e_JoinedStr(self, e, st):
        return [(st, fresh("fstr", "text"))]

    def e_Name(self, e, st):
        cx = self.cx
        v = st.var(cx.fid, e.id)
        if v is not None:
            return [(st, v)]
        if cx.fi is not None and e.id in self.locals_of(cx.fi):
            if e.id not in ("$exc",):
                self.definite(st, e, "local variable '%s' referenced before assignment" % e.id)
                self.throwx(st, "UnboundLocalError", e)
                return []
        for p in cx.parents:
            v = st.var(p, e.id)
            if v is not None:
                return [(st, v)]
        if cx.fi is None and cx.cls is not None:
            v = self.clsval(cx.cls, e.id)
            if v is not None:
                return [(st, v)]
        v = self.glob(cx.mod, e.id)
        if v is not None:
            if v.k == "missing":
                self.definite(st, e, "imported name '%s' does not exist" % v.a[0])
                self.throwx(st, "ImportError", e)
                return []
            return [(st, v)]
        if e.id == "None":
            return [(st, NONE)]
        if e.id in ("True", "False"):
            return [(st, TRUE if e.id == "True" else FALSE)]
        if e.id == "__file__":
            return [(st, srcfile(cx.mod))]
        if e.id in BUILTINS:
            return [(st, T("ext", "str" if e.id == "bytes" else ("int" if e.id == "long" else e.id)))]
        if e.id.startswith("$"):
            return [(st, T("ext", e.id))]
        self.definite(st, e, "name '%s' is not defined" % e.id)
        self.throwx(st, "NameError", e)
        return []

    def locals_of(self, fi):
        if fi.locals is None:
            fi.locals = assigned_names(fi.node)
        return fi.locals

    def e_Tuple(self, e, st):
        return [(s, T("tup", *vs)) for s, vs in self.evs(e.elts, st)]

    def e_List(self, e, st):
        out = []
        for s, vs in self.evs(e.elts, st):
            o = s.new(Obj("list", seq=tuple(("one", v) for v in vs)), e)
            out.append((s, o))
        return out

    def e_Set(self, e, st):
        out = []
        for s, vs in self.evs(e.elts, st):
            for v in vs:
                self.check_hashable(s, v, e)
            o = s.new(Obj("set", seq=tuple(("one", v) for v in vs)), e)
            out.append((s, o))
        return out

    def check_hashable(self, st, v, node):
        if typeof(st, v) in ("dict", "list", "set") and v.k == "obj":
            self.definite(st, node, "unhashable %s" % typeof(st, v))
            self.throwx(st.fork(), "TypeError", node, "unhashable")

    def e_Dict(self, e, st):
        ks = [k for k in e.keys if k is not None]
        out = []
        for s, vs in self.evs([x for p in zip(e.keys, e.values) for x in p if x is not None], st):
            ent, base = {}, None
            it = iter(vs)
            for k in e.keys:
                if k is None:
                    next(it)
                    base = fresh("map")
                else:
                    kk = next(it)
                    ent[kk] = next(it)
            o = s.new(Obj("dict", ent=ent, base=base), e)
            out.append((s, o))
        return out

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        cur, done = [st], []
        for i, v in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s in cur:
                for s2, x in self.ev(v, s):
                    if last:
                        done.append((s2, x))
                        continue
                    a, b = self.split(s2, x, v)
                    for t in (b if isand else a):
                        done.append((t, self.boolval(t, x, not isand)))
                    nxt += a if isand else b
            cur = nxt
        return done

    def boolval(self, st, x, truth):
        """the value of x knowing its truth"""
        if typeof(st, x) == "bool":
            return TRUE if truth else FALSE
        if not truth:
            ty = typeof(st, x)
            if ty in ("str", "unicode"):
                return const("", ty)
            if ty == "text":
                return const("")
            if ty == "int":
                return ZERO
        return x

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            out = []
            for s, v in self.ev(e.operand, st):
                if v.k == "c":
                    out.append((s, const(not v.a[1])))
                elif typeof(s, v) == "bool":
                    out.append((s, mk_not(v)))
                else:
                    a, b = self.split(s, v, e)
                    out += [(t, FALSE) for t in a] + [(t, TRUE) for t in b]
            return out
        out = []
        for s, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.USub):
                if v.k == "c" and isinstance(v.a[1], (int, float)):
                    out.append((s, const(-v.a[1])))
                else:
                    out.append((s, mkint(lscale(lin(v), -1))))
            else:
                out.append((s, v))
        return out

    def e_Compare(self, e, st):
        outs = []
        for s, vs in self.evs([e.left] + e.comparators, st):
            r = TRUE
            ok = True
            for i, op in enumerate(e.ops):
                a, b = vs[i], vs[i + 1]
                t = self.compare(s, op, a, b, e)
                r = mk_and(r, t)
            outs.append((s, r))
        return outs

    def compare(self, st, op, a, b, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is NONE or b is NONE:
                t = self.isnone_t(st, b if a is NONE else a)
            elif a is b:
                t = TRUE
            elif a.k in ("c",) and b.k in ("c",):
                t = TRUE if same_const(a, b) and a.a[0] == b.a[0] else FALSE
            elif a.k in ("cls", "ext", "func") and b.k in ("cls", "ext", "func"):
                t = FALSE
            elif a.k == "obj" and b.k == "obj":
                t = FALSE
            elif (a.k == "app" and a.a[0] == "type") or (b.k == "app" and b.a[0] == "type"):
                t = self.type_is(st, a, b)
            else:
                x, y = (a, b) if a.n < b.n else (b, a)
                t = app("is", x, y)
            return mk_not(t) if isinstance(op, ast.IsNot) else t
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if (a.k == "app" and a.a[0] == "type") or (b.k == "app" and b.a[0] == "type"):
                t = self.type_is(st, a, b)
            else:
                t = self.cmp_eq(st, a, b)
            return mk_not(t) if isinstance(op, ast.NotEq) else t
        if isinstance(op, (ast.In, ast.NotIn)):
            o = st.get(b)
            if o is not None and (o.ent is not None):
                t = self.dict_has(st, b, a)
            else:
                t = self.cmp_in(st, a, b)
            return mk_not(t) if isinstance(op, ast.NotIn) else t
        return self.cmp_order(st, {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)], a, b)

    def type_is(self, st, a, b):
        if not (a.k == "app" and a.a[0] == "type"):
            a, b = b, a
        x = a.a[1]
        o = st.get(x)
        if o is not None and o.cls is not None:
            return TRUE if o.cls is b else FALSE
        ty = typeof(st, x)
        if b.k == "ext" and ty is not None:
            n = {"bytes": "str"}.get(b.a[0], b.a[0])
            if ty == "text":
                return app("isinst", x, T("ext", n)) if n in ("str", "unicode") else FALSE
            return TRUE if ty == n else FALSE
        if x is NONE:
            return FALSE
        return app("typeis", x, b)

    def e_IfExp(self, e, st):
        a, b = self.cond(e.test, st)
        out = []
        for s in self.compact(a):
            out += self.ev(e.body, s)
        for s in self.compact(b):
            out += self.ev(e.orelse, s)
        return out

    def e_NamedExpr(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            for s2 in self.assign(e.target, s, v):
                out.append((s2, v))
        return out

    def e_BinOp(self, e, st):
        out = []
        for s, (a, b) in self.evs([e.left, e.right], st):
            out += self.binop(s, e.op, a, b, e)
        return out

    def binop(self, st, op, a, b, node):
        on = op.__class__.__name__
        if a.k == "c" and b.k == "c" and a.a[1] is not None and b.a[1] is not None and on != "Mod":
            try:
                x, y = a.a[1], b.a[1]
                if on == "Add":
                    if isinstance(x, str) and isinstance(y, str):
                        return [(st, mkcat(a, b))]
                    if not isinstance(x, str) and not isinstance(y, str):
                        return [(st, const(x + y))]
                elif on == "Sub":
                    return [(st, const(x - y))]
                elif on == "Mult":
                    r = x * y
                    return [(st, const(r, a.a[0] if isinstance(x, str) else None) if not isinstance(r, str) else const(r, "str"))]
                elif on == "Pow" and abs(y) < 200:
                    return [(st, const(x ** y))]
                elif on in ("FloorDiv", "Div") and y and isinstance(x, int) and isinstance(y, int):
                    return [(st, const(x // y))]
                elif on == "LShift":
                    return [(st, const(x << y))]
                elif on == "BitOr":
                    return [(st, const(x | y))]
                elif on == "BitAnd":
                    return [(st, const(x & y))]
            except (TypeError, ValueError):
                pass
        oa, ob = st.get(a), st.get(b)
        ta, tb = typeof(st, a), typeof(st, b)
        if on == "Add":
            if ta in STRISH or tb in STRISH:
                bad = [t for t in (ta, tb) if t not in STRISH and t is not None]
                if bad:
                    self.definite(st, node, "cannot concatenate str and %s" % bad[0])
                    self.throwx(st, "TypeError", node)
                    return []
                return [(st, mkcat(a, b))]
            sa, sb = self.seq_of(st, a), self.seq_of(st, b)
            if sa is not None and sb is not None:
                if ta == "tuple" and tb == "tuple" and all(k == "one" for k, _ in sa + sb):
                    return [(st, T("tup", *[x for _, x in sa + sb]))]
                return [(st, st.new(Obj("list", seq=sa + sb), node))]
            if oa is not None or ob is not None or a.k == "tup" or b.k == "tup":
                return [(st, fresh("add"))]
            if a is NONE or b is NONE:
                self.definite(st, node, "operand is None")
                self.throwx(st, "TypeError", node)
                return []
            if ta == "float" or tb == "float":
                return [(st, app("fadd", a, b))]
            return [(st, mkint(ladd(lin(a), lin(b))))]
        if on == "Sub":
            if a is NONE or b is NONE:
                self.definite(st, node, "operand is None")
                self.throwx(st, "TypeError", node)
                return []
            if oa is not None or ob is not None or ta == "float" or tb == "float":
                return [(st, app("fsub", a, b))]
            return [(st, mkint(ladd(lin(a), lin(b), -1)))]
        if on == "Mult":
            if ta in STRISH or tb in STRISH:
                return [(st, app("rep", a, b))]
            for o, k in ((oa, b), (ob, a)):
                if o is not None and o.kind == "list" and k.k == "c" and isinstance(k.a[1], int) and len(o.seq) * k.a[1] <= 16:
                    return [(st, st.new(Obj("list", seq=o.seq * k.a[1]), node))]
                if o is not None and o.kind == "list":
                    if len(o.seq) == 1 and o.seq[0][0] == "one":
                        sym = fresh("rep", None, ("rep", o.seq[0][1]))
                        s2 = st
                        l = {app("n", sym): 1}
                        for c in (ladd(l, lin(k), -1), ladd(lin(k), l, -1)):
                            pass
                        if entails(st, lin(k)):
                            add_lin(s2, ladd(l, lin(k), -1))
                            add_lin(s2, ladd(lin(k), l, -1))
                        return [(s2, s2.new(Obj("list", seq=(("seg", sym),)), node))]
                    return [(st, st.new(Obj("list", seq=(("seg", fresh("rep")),)), node))]
            return [(st, mkint(lin(app("mul", a, b))))]
        if on == "Mod":
            if ta in STRISH or (a.k == "c" and isinstance(a.a[1], str)):
                return self.fmt_percent(st, a, b, node)
            if a.k == "c" and b.k == "c" and isinstance(a.a[1], int) and isinstance(b.a[1], int) and b.a[1]:
                return [(st, const(a.a[1] % b.a[1]))]
            m = app("mod", a, b)
            if b.k == "c" and isinstance(b.a[1], int) and b.a[1] > 0 and (ta == "int" or a.k == "app" and a.a[0] in ("lin", "len")):
                add_lin(st, lin(m))
                add_lin(st, ladd(lconst(b.a[1] - 1), lin(m), -1))
            return [(st, m)]
        if on in ("FloorDiv", "Div"):
            return [(st, app("floordiv", a, b))]
        return [(st, app("bin" + on, a, b))]

    def e_Attribute(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            out += self.getattr(s, v, e.attr, e)
        return out

    def e_Subscript(self, e, st):
        out = []
        sl = e.slice
        if isinstance(sl, ast.Index):
            sl = sl.value
        if isinstance(sl, ast.Slice):
            parts = [e.value] + [x if x is not None else ast.Constant(value=None, kind=None) for x in (sl.lower, sl.upper, sl.step)]
            for p in parts:
                if not hasattr(p, "lineno"):
                    ast.copy_location(p, e)
            for s, (v, lo, hi, step) in self.evs(parts, st):
                out += self.slice(s, v, lo, hi, step, e)
            return out
        for s, (v, k) in self.evs([e.value, sl], st):
            out += self.getitem(s, v, k, e)
        return out

    def slice(self, st, v, lo, hi, step, node):
        seq = self.seq_of(st, v)
        if step is not NONE:
            return [(st, app("slice3", v, lo, hi, step))]
        lo = self.none_or(st, lo)
        hi = self.none_or(st, hi)
        if seq is not None:
            mk = (lambda q: T("tup", *[x for _, x in q])) if v.k == "tup" else (lambda q: st.new(Obj("list", seq=q), node))
            if lo is NONE and hi is NONE:
                return [(st, mk(seq))]
            if all(k == "one" for k, _ in seq) and all(x is NONE or (x.k == "c" and isinstance(x.a[1], int)) for x in (lo, hi)):
                return [(st, mk(seq[lo.a[1]:hi.a[1]]))]
            if not seq:
                return [(st, mk(seq))]
            # leading exact part
            c = seqterm(seq)
            sl = app("slice", c, lo, hi)
            N = seqlen(seq)[0]
            n = {app("n", sl): 1}
            add_lin(st, ladd(N, n, -1))
            if hi is not NONE and entails(st, lin(hi)):
                add_lin(st, ladd(lin(hi), n, -1))
            return [(st, st.new(Obj("list", seq=(("seg", sl),)), node))]
        if v is NONE:
            self.definite(st, node, "slicing None")
            self.throwx(st, "TypeError", node)
            return []
        o = st.get(v)
        if o is not None and o.kind == "inst" and o.seq is None:
            r = self.lookup(o.cls.a[0], "__getslice__") or self.lookup(o.cls.a[0], "__getitem__")
            if r is None or isinstance(r[0], str):
                return [(st, app("slice", v, lo, hi))]
        self.learn(st, v, "text")
        if texts.structured(v):
            r = texts.slice_(st, v, lo, hi)
            if r is not None:
                return [(st, r)]
            self.rule.undecided(self, v, node)
        return [(st, mkslice(v, lo, hi))]

    def none_or(self, st, x):
        if x is not NONE and st.facts.get(app("isnone", x)) is True:
            return NONE
        return x

    def learn(self, st, v, ty):
        """an operation that only makes sense for type ty was applied to v"""
        if v.k in ("sym", "app") and typeof(st, v) is None:
            st.facts[app("typ", v)] = ty
            f = st.facts.get(app("truth", v))
            if f is not None and ty in STRISH:
                l = ladd(lenof(v), lconst(-1))
                add_lin(st, l if f else ladd(lscale(l, -1), lconst(-1)))

    def e_Call(self, e, st):
        # super() with no arguments is not Python 2
        outs = []
        for s, f in self.ev(e.func, st):
            argl = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
            kwl = [k.value for k in e.keywords]
            for s2, vs in self.evs(argl + kwl, s):
                args, kw, star, ok = [], {}, None, True
                for a, v in zip(e.args, vs):
                    if isinstance(a, ast.Starred):
                        it = self.exact_items(s2, v)
                        if it is None:
                            star = v
                        else:
                            args += it
                    else:
                        args.append(v)
                for k, v in zip(e.keywords, vs[len(e.args):]):
                    if k.arg is None:
                        o = s2.get(v)
                        if o is not None and o.ent is not None and o.base is None:
                            for kk, vv in o.ent.items():
                                if vv is not ABSENT:
                                    kw[kk.a[1] if kk.k == "c" else kk] = vv
                        else:
                            kw["**"] = v
                    else:
                        kw[k.arg] = v
                if star is not None:
                    kw["*"] = star
                outs += self.call(s2, f, tuple(args), kw, e)
        return outs

    def e_Lambda(self, e, st):
        return self.closure(e, st)

    def closure(self, node, st):
        fi = self.cx.fi.children.get(id(node)) if self.cx.fi is not None else None
        if fi is None:
            key = ("anon", id(node))
            fi = self.prog.funcs.get(key)
            if fi is None:
                fi = FuncInfo((self.cx.cls.qual if self.cx.cls else self.cx.mod.name) + ".<lambda>%d" % node.lineno, node, self.cx.mod, self.cx.cls)
                self.prog.funcs[key] = fi
                self.prog.funcs[fi.qual] = fi
                self.prog._nested(fi)
        a = node.args
        ds = [d for d in list(a.defaults) + [d for d in a.kw_defaults if d is not None]]
        out = []
        for s, vs in self.evs(ds, st):
            parents = T("fids", *([self.cx.fid] + list(self.cx.parents))) if self.cx.fi is not None else T("fids")
            out.append((s, T("clo", fi.qual, parents, T("tup", *vs))))
        return out

    def e_ListComp(self, e, st):
        return self.built(st, e, Obj("list", seq=()), lambda s, o: self.comp_add(s, o, e.elt))

    def e_SetComp(self, e, st):
        return self.built(st, e, Obj("set", seq=()), lambda s, o: self.comp_add(s, o, e.elt))

    def e_DictComp(self, e, st):
        def add(s, o):
            out = []
            for s2, (k, v) in self.evs([e.key, e.value], s):
                out += self.dict_set(s2, o, k, v, e)
            return out
        return self.built(st, e, Obj("dict", ent={}, base=None), add)

    def built(self, st, e, obj, add):
        """a comprehension; the object under construction is held by a hidden local variable"""
        o = st.new(obj, e)
        fid, nm = self.cx.fid, "$lc%d" % id(e)
        st.setvar(fid, nm, o)
        out = []
        for s in self.comp(e.generators, 0, st, lambda s: add(s, o), e):
            s.delvar(fid, nm)
            out.append((s, o))
        return out

    def comp_add(self, st, o, elt):
        out = []
        for s, v in self.ev(elt, st):
            ob = s.mut(o)
            ob.seq = ob.seq + (("one", v),)
            out.append(s)
        return out

    def comp(self, gens, i, st, inner, node):
        if i == len(gens):
            return inner(st)
        g = gens[i]

        def body(s):
            cur = [s]
            for c in g.ifs:
                nxt = []
                for x in cur:
                    a, b = self.cond(c, x)
                    nxt += a
                    skipped.extend(b)
                cur = nxt
            out = []
            for x in cur:
                out += self.comp(gens, i + 1, x, inner, node)
            return out
        outs = []
        skipped = []
        for s, it in self.ev(g.iter, st):
            def b2(s2, v):
                r = []
                for s3 in self.assign(g.target, s2, v):
                    r += body(s3)
                r += skipped
                skipped.clear()
                return self.compact(r)
            outs += self.iterate(s, it, b2, g)
        return self.compact(outs)

    def e_GeneratorExp(self, e, st):
        # lazily evaluated: remember the expression and the frame it reads
        x = ("genexp", e, self.cx.fi, self.cx.fid, tuple(self.cx.parents), self.cx.mod, self.cx.cls)
        # the outermost iterable is evaluated now
        out = []
        for s, it in self.ev(e.generators[0].iter, st):
            out.append((s, s.new(Obj("gen", x=x + (it,)), e)))
        return out

    def e_Yield(self, e, st):
        out = []
        vs = self.ev(e.value, st) if e.value is not None else [(st, NONE)]
        for s, v in vs:
            if self.cx.on_yield is None:
                self.rule.on_yield(self, s, v, e)
                out.append((s, fresh("sent")))
                continue
            for s2 in self.cx.on_yield(s, v):
                out.append((s2, NONE))
        return out

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    # ------------------------------------------------------------------------------------------ attributes
    def definite(self, st, node, msg):
        if self.dry == 0:
            self.rule.definite(self, st, node, msg)
        if Engine.collector is not None:
            Engine.collector(self, st, node, msg)

    def getattr(self, st, v, name, node, default=None):
        k = v.k
        if k == "obj":
            o = st.get(v)
            if o.kind == "inst":
                return self.inst_attr(st, v, o, name, node)
            if o.kind == "fn":
                return [(st, o.attrs.get(name, app("attr", v, name)))]
            if o.kind in ("list", "dict", "set") and not models.type_has(o.kind, name):
                return self.noattr(st, v, name, node)
            return [(st, T("bext", v, name))]
        if k == "mod":
            m = self.prog.mods.get(v.a[0])
            r = self.glob(m, name) if m else None
            if r is None:
                q = v.a[0] + "." + name
                if any(x == q or x.startswith(q + ".") for x in self.prog.mods):
                    return [(st, T("mod", q))]
                return self.noattr(st, v, name, node)
            return [(st, r)]
        if k == "cls":
            r = self.lookup(v.a[0], name)
            if r is None:
                if name == "__name__":
                    return [(st, const(v.a[0].split(".")[-1]))]
                if name in ("__dict__", "__doc__", "__module__", "__bases__", "__mro__", "__class__", "__init__", "__new__"):
                    return [(st, app("attr", v, name))]
                return self.noattr(st, v, name, node)
            f = r[1]
            if f.k == "cm":
                return [(st, T("bound", f.a[0], v))]
            if f.k == "sm":
                return [(st, f.a[0])]
            return [(st, f)]
        if k == "ext":
            return [(st, models.ext_attr(v.a[0], name))]
        if k == "super":
            r = self.lookup(v.a[0], name, after=v.a[1])
            if r is None:
                if name in ("__init__", "__setattr__", "__getattribute__", "__delattr__", "__str__", "__repr__"):
                    return [(st, T("extattr_b", "object", name, v.a[2]))]
                return self.noattr(st, v, name, node)
            f = r[1]
            if f.k == "extattr":
                return [(st, T("extattr_b", f.a[0], f.a[1], v.a[2]))]
            if f.k == "cm":
                return [(st, T("bound", f.a[0], T("cls", v.a[0])))]
            if f.k == "sm":
                return [(st, f.a[0])]
            if f.k == "prop":
                return self.call(st, f.a[0], (v.a[2],), {}, node)
            return [(st, T("bound", f, v.a[2]))]
        if v is NONE or st.facts.get(app("isnone", v)) is True:
            self.definite(st, node, "attribute '%s' of None" % name)
            self.throwx(st, "AttributeError", node, name)
            return []
        if k in ("func", "clo", "bound") and name in ("__name__", "__doc__", "func_name", "__dict__", "__module__"):
            return [(st, app("attr", v, name))]
        if k == "exc":
            if name == "args" and len(v.a) > 2 and v.a[2]:
                return [(st, T("tup", *v.a[2]))]
            return [(st, app("attr", v, name))]
        ty = typeof(st, v)
        if ty in ("str", "unicode", "text", "int", "bool", "tuple", "list", "dict", "float", "none"):
            if not models.type_has(ty, name):
                return self.noattr(st, v, name, node)
            return [(st, T("bext", v, name))]
        if k in ("sym", "app"):
            if st.facts.get(app("has", v, name)) is False:
                return self.noattr(st, v, name, node, definite=False)
            # an unknown value: attribute and bound method are not told apart
            if typeof(st, v) is None and app("isnone", v) not in st.facts:
                st.facts[app("isnone", v)] = False
            return [(st, T("bext", v, name) if models.looks_method(name) else app("attr", v, name))]
        return [(st, app("attr", v, name))]

    def noattr(self, st, v, name, node, definite=True):
        if definite:
            self.definite(st, node, "no attribute '%s' on %s" % (name, self.vdesc(st, v)))
        self.throwx(st, "AttributeError", node, name)
        return []

    def vdesc(self, st, v):
        o = st.get(v)
        if o is not None:
            return o.cls.a[0].split(".")[-1] if o.cls is not None else o.kind
        if v.k in ("mod", "cls", "ext", "func"):
            return v.a[0]
        return typeof(st, v) or show(v)

    def inst_attr(self, st, v, o, name, node):
        cq = o.cls.a[0] if o.cls is not None and o.cls.k == "cls" else None
        r = self.lookup(cq, name) if cq else None
        if r is not None and r[1].k == "prop":
            g = r[1].a[0]
            if g is NONE:
                return self.noattr(st, v, name, node)
            return self.call(st, g, (v,), {}, node)
        a = o.attrs.get(name)
        if a is not None and a is not ABSENT:
            return [(st, a)]
        if name == "__class__":
            return [(st, o.cls)]
        if name == "__dict__":
            return [(st, app("attr", v, "__dict__"))]
        if r is not None and (a is ABSENT or not o.lazy or r[1].k in ("func", "cm", "sm", "extattr")):
            f = r[1]
            if f.k == "func" or f.k == "clo":
                return [(st, T("bound", f, v))]
            if f.k == "cm":
                return [(st, T("bound", f.a[0], o.cls))]
            if f.k == "sm":
                return [(st, f.a[0])]
            if f.k == "extattr":
                return [(st, T("extattr_b", f.a[0], f.a[1], v))]
            return [(st, f)]
        ga = self.lookup(cq, "__getattr__") if cq else None
        if ga is not None and not isinstance(ga[0], str) and not o.lazy:
            return self.call(st, T("bound", ga[1], v), (const(name),), {}, node)
        if a is ABSENT:
            return self.noattr(st, v, name, node)
        if o.lazy:
            f = st.facts.get(app("has", v, name))
            if f is False:
                return self.noattr(st, v, name, node, definite=False)
            x = self.lazy_attr(st, v, o, name)
            return [(st, x)]
        return self.noattr(st, v, name, node)

    def lazy_attr(self, st, v, o, name):
        x = app("attr", v, name)
        k = self.attr_kind(o.cls.a[0], name) if o.cls is not None and o.cls.k == "cls" else None
        if k == "list":
            site = ("lazyattr", v, name)
            if self.dry or site in st.cnt:
                return x
            x = st.new(Obj("list", seq=(("seg", x),)), site)
            st.mut(v).attrs[name] = x
        elif k is not None and app("typ", x) not in st.facts:
            st.facts[app("typ", x)] = k
        return x

    def attr_kind(self, cq, name):
        """the type every assignment of the attribute in the program gives it, when that is evident"""
        tab = self.prog.__dict__.setdefault("attrkinds", {})
        if (cq, name) in tab:
            return tab[(cq, name)]
        fam = set(c for c in self.prog.classes if cq in self.mro(c)) | set(self.mro(cq))
        kinds = set()

        def kind(e):
            if isinstance(e, (ast.List, ast.ListComp)):
                return "list"
            if isinstance(e, ast.Constant):
                return {bytes: "str", str: "str", bool: "bool", int: "int", type(None): "none"}.get(type(e.value))
            if isinstance(e, ast.BinOp):
                ks = {kind(e.left), kind(e.right)}
                for k in ("list", "str"):
                    if k in ks and ks <= {k, None, "same"}:
                        return k
                if isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)) and "int" in ks:
                    return "same" if isinstance(e.op, ast.Add) else None
                return "same" if "same" in ks else None
            if isinstance(e, ast.Attribute) and e.attr == name:
                return "same"
            if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
                return kind(e.value)
            if isinstance(e, (ast.Compare, ast.UnaryOp)) and not isinstance(getattr(e, "op", None), (ast.USub, ast.UAdd, ast.Invert)):
                return "bool" if isinstance(e, ast.Compare) or isinstance(e.op, ast.Not) else None
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "len", "int", "bool", "sorted"):
                return {"list": "list", "sorted": "list", "len": "int", "int": "int", "bool": "bool"}[e.func.id]
            return None
        for fi in self.prog.funcs.values():
            a0 = fi.node.args.args[0].arg if fi.cls is not None and fi.node.args.args else None
            own = fi.cls is not None and fi.cls.qual in fam
            for n in ast.walk(fi.node):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.For)) else []
                for t in tg:
                    for u in ast.walk(t):
                        if isinstance(u, ast.Attribute) and u.attr == name and isinstance(u.ctx, ast.Store):
                            isself = isinstance(u.value, ast.Name) and u.value.id == a0
                            if isself and not own:
                                continue
                            kinds.add(kind(n.value) if u is t and not isinstance(n, ast.For) else None)
        kinds.discard("same")
        r = kinds.pop() if len(kinds) == 1 else None
        if r == "none":
            r = None
        tab[(cq, name)] = r
        return r

    def hasattr(self, st, v, name):
        """(term)"""
        o = st.get(v)
        if o is not None and o.kind == "inst":
            cq = o.cls.a[0] if o.cls is not None and o.cls.k == "cls" else None
            a = o.attrs.get(name)
            if a is not None and a is not ABSENT:
                return TRUE
            r = self.lookup(cq, name) if cq else None
            if r is not None:
                return TRUE if r[1].k != "prop" else None
            if a is ABSENT or not o.lazy:
                return FALSE
            return app("has", v, name)
        if v is NONE:
            return FALSE
        ty = typeof(st, v)
        if v.k == "obj" and o.kind in ("list", "dict", "set"):
            return TRUE if models.type_has(o.kind, name) else FALSE
        if ty in ("str", "unicode", "int", "bool", "tuple", "text"):
            return TRUE if models.type_has(ty, name) else FALSE
        if v.k == "cls":
            return TRUE if self.lookup(v.a[0], name) else FALSE
        return app("has", v, name)

    def setattr(self, st, v, name, val, node):
        """[states]"""
        self.rule.store(self, st, v, name, val, node)
        o = st.get(v)
        if o is not None and o.kind == "inst":
            cq = o.cls.a[0] if o.cls is not None and o.cls.k == "cls" else None
            r = self.lookup(cq, name) if cq else None
            if r is not None and r[1].k == "prop" and self.newstyle(cq):
                s = r[1].a[1]
                if s is NONE:
                    return [x for x, _ in self.noattr(st, v, name, node)]
                return [s2 for s2, _ in self.call(st, s, (v, val), {}, node)]
            st.mut(v).attrs[name] = val
            return [st]
        if v is NONE:
            self.definite(st, node, "attribute store on None")
            self.throwx(st, "AttributeError", node)
            return []
        return [st]

    def delattr(self, st, v, name, node):
        self.rule.store(self, st, v, name, ABSENT, node)
        o = st.get(v)
        if o is not None and o.kind == "inst":
            a = o.attrs.get(name)
            if a is ABSENT or (a is None and not o.lazy) or (a is None and st.facts.get(app("has", v, name)) is False):
                self.definite(st, node, "deletes missing attribute '%s'" % name)
                self.throwx(st, "AttributeError", node, name)
                return []
            st.mut(v).attrs[name] = ABSENT
        return [st]

    # ------------------------------------------------------------------------------------------ calls
    def call(self, st, f, args, kw, node):
        self.calls += 1
        r = self.rule.call(self, st, f, args, kw, node)
        if r is not None:
            return r
        k = f.k
        if k == "bound":
            return self.call_func(st, f.a[0], (f.a[1],) + tuple(args), kw, node)
        if k in ("func", "clo"):
            return self.call_func(st, f, args, kw, node)
        if k == "cls":
            return self.instantiate(st, f, args, kw, node)
        if k == "ext":
            return self.call_ext(st, f.a[0], args, kw, node)
        if k == "bext":
            return self.call_method(st, f.a[0], f.a[1], args, kw, node)
        if k == "extattr_b":
            return self.call_base(st, f.a[0], f.a[1], f.a[2], args, kw, node)
        if k == "extattr":
            if not args:
                return [(st, fresh("extcall"))]
            return self.call_base(st, f.a[0], f.a[1], args[0], args[1:], kw, node)
        if k == "obj":
            o = st.get(f)
            if o.kind == "inst" and o.cls.k == "cls":
                r = self.lookup(o.cls.a[0], "__call__")
                if r and r[1].k == "func":
                    return self.call_func(st, r[1], (f,) + tuple(args), kw, node)
            if o.kind == "fn":
                return o.x(self, st, args, kw, node)
            self.definite(st, node, "%s is not callable" % self.vdesc(st, f))
            self.throwx(st, "TypeError", node)
            return []
        if k in ("c", "tup", "mod", "ge0"):
            self.definite(st, node, "%s is not callable" % self.vdesc(st, f))
            self.throwx(st, "TypeError", node)
            return []
        if k == "app" and f.a[0] == "attr" and isinstance(f.a[2], str):
            return self.call_method(st, f.a[1], f.a[2], args, kw, node)
        if k == "cm" or k == "sm":
            return self.call(st, f.a[0], args, kw, node)
        return self.call_unknown(st, f, args, kw, node)

    def call_unknown(self, st, f, args, kw, node):
        return [(st, fresh("call:" + show(f)[:30], None, ("call", f) + tuple(args)))]

    def bind(self, st, fi, f, args, kw, node):
        """[(state, {param: value})] or [] after a definite arity error"""
        a = fi.node.args
        names = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        env, extra = {}, []
        for i, v in enumerate(args):
            if i < len(names):
                env[names[i]] = v
            else:
                extra.append(v)
        star, dstar = kw.get("*"), kw.get("**")
        kwx = {}
        err = None
        for k, v in kw.items():
            if k in ("*", "**"):
                continue
            if k in env and k in names:
                err = "got multiple values for '%s'" % k
            if k in names or k in kwonly:
                env[k] = v
            else:
                kwx[k] = v
        if star is not None:
            # unknown number of further positional arguments
            for n in names:
                if n not in env:
                    env[n] = fresh("star:" + n, None, ("item", star))
        if extra and not a.vararg:
            err = "takes %d arguments, got %d" % (len(names), len(args))
        if kwx and not a.kwarg:
            err = "unexpected keyword argument %r" % sorted(map(str, kwx))[0]
        if err:
            self.definite(st, node, "%s() %s" % (fi.qual, err))
            self.throwx(st, "TypeError", node)
            return []
        if a.vararg:
            env[a.vararg.arg] = T("tup", *extra) if star is None else fresh("args", "tuple", ("args", star))
        if a.kwarg:
            if dstar is not None:
                env[a.kwarg.arg] = st.new(Obj("dict", ent={const(k): v for k, v in kwx.items()}, base=fresh("kwargs")), node)
            else:
                env[a.kwarg.arg] = st.new(Obj("dict", ent={const(k): v for k, v in kwx.items()}, base=None), node)
        miss = [n for n in names + kwonly if n not in env]
        outs = [(st, env)]
        if miss:
            nd = len(a.defaults)
            dnames = names[len(names) - nd:] if nd else []
            dflt = dict(zip(dnames, a.defaults))
            for n, d in zip(kwonly, a.kw_defaults):
                if d is not None:
                    dflt[n] = d
            if f.k == "clo":
                vals = dict(zip(dnames + [n for n, d in zip(kwonly, a.kw_defaults) if d is not None], f.a[2].a))
                for n in miss:
                    if n in vals:
                        env[n] = vals[n]
            else:
                for n in miss:
                    if n in dflt:
                        if isinstance(dflt[n], ast.Constant):
                            env[n] = self.e_Constant(dflt[n], st)[0][1]
                        else:
                            env[n] = self.default_value(fi, dflt[n], st)
            if dstar is not None:
                for n in names + kwonly:
                    if n not in env or n in miss:
                        env[n] = fresh("kw:" + n) if n not in env else env[n]
            miss = [n for n in names + kwonly if n not in env]
            if miss:
                self.definite(st, node, "%s() missing argument '%s'" % (fi.qual, miss[0]))
                self.throwx(st, "TypeError", node)
                return []
        return outs

    def default_value(self, fi, e, st):
        key = ("dflt", id(e))
        c = getattr(self.prog, "dflts", None)
        if c is None:
            c = self.prog.dflts = {}
        if key not in c:
            r = self._lazy(("expr", e), fi.mod, fi.cls, "default")
            c[key] = r
        v = c[key]
        for x in subterms(v):
            if x.k == "obj" and x.a[0] not in st.heap:
                st.heap[x.a[0]] = self.mstate.heap[x.a[0]]
        return v

    def call_func(self, st, f, args, kw, node):
        if f.k in ("cm", "sm"):
            f = f.a[0]
        if f.k not in ("func", "clo"):
            return self.call(st, f, args, kw, node)
        q = f.a[0]
        fi = self.prog.funcs[q]
        c = self.contracts.get(q)
        if c is not None:
            r = c(self, st, args, kw, node)
            if r is not None:
                return r
        if self.stack.count(q) >= self.recur or len(self.stack) > MAXDEPTH:
            self.rule_recursion(st, q, node)
            return [(st, fresh("rec:" + q.split(".")[-1], None, ("rec", q)))]
        outs = []
        for s, env in self.bind(st, fi, f, args, kw, node):
            if fi.is_gen:
                outs.append((s, s.new(Obj("gen", x=("fn", f, tuple(sorted(env.items(), key=lambda p: p[0])))), node)))
            else:
                outs += self.run_func(s, fi, f, env, node)
        return outs

    def rule_recursion(self, st, q, node):
        h = getattr(self.rule, "recursion", None)
        if h:
            h(self, st, q, node)

    def run_func(self, st, fi, f, env, node, on_yield=None):
        self.analysed.add(fi.qual)
        k = st.cnt.get(("fr", node), 0)
        st.cnt = dict(st.cnt)
        st.cnt[("fr", node)] = k + 1
        fid = ("f", fi.qual, id(node), k)
        parents = list(f.a[1].a) if f.k == "clo" else []
        cx = Cx(fi, fid, parents, fi.mod, fi.cls, (self.cx.depth + 1) if self.cx else 0)
        cx.on_yield = on_yield
        st.frames[fid] = dict(env)
        cx.birth0 = st.nid
        old = self.cx
        cx.up = old
        self.cx = cx
        self.stack.append(fi.qual)
        st.note(node, "-> " + fi.qual.split(".")[-1]) if node is not None else None
        nexc = len(self.exc)
        try:
            if isinstance(fi.node, ast.Lambda):
                outs = self.ev(fi.node.body, st)
            else:
                ends = self.block(fi.node.body, [st])
                outs = cx.ret + [(s, NONE) for s in ends]
        finally:
            self.cx = old
            self.stack.pop()
        keep = self.captured(fi)
        for s, _ in outs:
            if not keep:
                s.frames.pop(fid, None)
        if not keep:
            for s, _ in self.exc[nexc:]:
                s.frames.pop(fid, None)
        if len(outs) > 1:
            outs = self.compact_vals(outs, tuple(env.values()))
        return outs

    def captured(self, fi):
        """does the function create closures (whose frame must stay alive)?"""
        if fi.used_by_inner is None:
            fi.used_by_inner = set()
            for n in ast.walk(fi.node):
                if n is not fi.node and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)):
                    for x in ast.walk(n):
                        if isinstance(x, ast.Name):
                            fi.used_by_inner.add(x.id)
        return fi.used_by_inner

    def instantiate(self, st, f, args, kw, node):
        q = f.a[0]
        c = self.contracts.get(q)
        if c is not None:
            r = c(self, st, args, kw, node)
            if r is not None:
                return r
        base = self.extbase(q)
        new = self.lookup(q, "__new__")
        if new is not None and not isinstance(new[0], str):
            fn = new[1].a[0] if new[1].k == "sm" else new[1]
            outs0 = self.call_func(st, fn, (f,) + tuple(args), kw, node)
        else:
            outs0 = [(st, self.alloc(st, f, node))]
        outs = []
        ini = self.lookup(q, "__init__")
        for s, o in outs0:
            if s.get(o) is None or s.get(o).kind != "inst":
                outs.append((s, o))
                continue
            if ini is None or isinstance(ini[0], str):
                if base and excname(base) in PY2_EXC:
                    s.mut(o).attrs["args"] = T("tup", *args)
                    outs.append((s, o))
                elif base == "dict" and new is None or (base == "dict"):
                    for s2, _ in self.call_base(s, "dict", "__init__", o, args, kw, node):
                        outs.append((s2, o))
                elif base in ("list", "tuple") and new is None:
                    for s2, _ in self.call_base(s, base, "__init__", o, args, kw, node):
                        outs.append((s2, o))
                else:
                    if (args or kw) and base is None:
                        self.definite(s, node, "%s() takes no arguments" % q)
                        self.throwx(s, "TypeError", node)
                        continue
                    outs.append((s, o))
                continue
            for s2, _ in self.call_func(s, ini[1], (o,) + tuple(args), kw, node):
                outs.append((s2, o))
        return outs

    def alloc(self, st, cls, node):
        q = cls.a[0]
        base = self.extbase(q) if cls.k == "cls" else None
        o = Obj("inst", cls=cls)
        if base == "dict":
            o.ent = {}
        elif base in ("list", "tuple", "set"):
            o.seq = ()
        return st.new(o, node)

    def lazy_inst(self, st, q, site, attrs=None, **kw):
        """a symbolic instance: any state the attributes may have"""
        o = Obj("inst", cls=T("cls", q), lazy=True, attrs=dict(attrs or {}))
        b = self.extbase(q)
        if b == "dict":
            o.ent = {}
            o.base = kw.get("base") or fresh("store")
        elif b in ("list", "tuple", "set"):
            o.seq = (("seg", kw.get("base") or fresh("content")),)
        return st.new(o, site)

    # ------------------------------------------------------------------------------------------ statements
    def block(self, body, states):
        for s in body:
            if not states:
                return []
            nid = min(x.nid for x in states)
            nxt = []
            for st in states:
                nxt += self.stmt(s, st)
            states = self.compact(nxt, s)
        return states

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget")
        m = getattr(self, "s_" + s.__class__.__name__, None)
        if m is None:
            raise AnalysisBroken("statement %s not supported (%s)" % (s.__class__.__name__, self.cx.fi.qual if self.cx.fi else "?"))
        return m(s, st)

    def s_Pass(self, s, st):
        return [st]

    s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [st]
        return [x for x, _ in self.ev(s.value, st)]

    def s_Assign(self, s, st):
        outs = []
        for st2, v in self.ev(s.value, st):
            cur = [st2]
            for t in s.targets:
                cur = [y for x in cur for y in self.assign(t, x, v)]
            outs += cur
        return outs

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [st]
        return [y for x, v in self.ev(s.value, st) for y in self.assign(s.target, x, v)]

    def s_AugAssign(self, s, st):
        t = s.target
        outs = []
        if isinstance(t, ast.Name):
            load = ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
            for st2, (a, b) in self.evs([load, s.value], st):
                for st3, v in self.inplace(st2, s.op, a, b, s):
                    outs += self.assign(t, st3, v)
        elif isinstance(t, ast.Attribute):
            for st2, o in self.ev(t.value, st):
                for st3, a in self.getattr(st2, o, t.attr, t):
                    for st4, b in self.ev(s.value, st3):
                        for st5, v in self.inplace(st4, s.op, a, b, s):
                            outs += self.setattr(st5, o, t.attr, v, s)
        elif isinstance(t, ast.Subscript):
            sl = t.slice.value if isinstance(t.slice, ast.Index) else t.slice
            for st2, (o, k) in self.evs([t.value, sl], st):
                for st3, a in self.getitem(st2, o, k, t):
                    for st4, b in self.ev(s.value, st3):
                        for st5, v in self.inplace(st4, s.op, a, b, s):
                            outs += self.setitem(st5, o, k, v, s)
        return outs

    def inplace(self, st, op, a, b, node):
        o = st.get(a)
        if o is not None and o.kind == "list" and isinstance(op, ast.Add):
            return [(s, a) for s, _ in self.call_method(st, a, "extend", (b,), {}, node)]
        if o is not None and o.kind == "inst" and o.cls is not None and o.cls.k == "cls":
            r = self.lookup(o.cls.a[0], INPLACE.get(op.__class__.__name__, "?"))
            if r is not None and not isinstance(r[0], str):
                return self.call(st, T("bound", r[1], a), (b,), {}, node)
        return self.binop(st, op, a, b, node)

    def assign(self, t, st, v):
        if isinstance(t, ast.Name):
            st.setvar(self.cx.fid, t.id, v)
            return [st]
        if isinstance(t, ast.Attribute):
            return [y for x, o in self.ev(t.value, st) for y in self.setattr(x, o, t.attr, v, t)]
        if isinstance(t, ast.Subscript):
            sl = t.slice.value if isinstance(t.slice, ast.Index) else t.slice
            if isinstance(sl, ast.Slice):
                outs = []
                for x, o in self.ev(t.value, st):
                    if x.get(o) is not None and x.get(o).kind == "list":
                        whole = sl.lower is None and sl.upper is None and sl.step is None
                        seq = self.seq_of(x, v) if whole else None
                        x.mut(o).seq = seq if seq is not None else (("seg", fresh("sliced")),)
                    outs.append(x)
                return outs
            return [y for x, (o, k) in self.evs([t.value, sl], st) for y in self.setitem(x, o, k, v, t)]
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            outs = []
            for s, items in self.unpack(st, v, n, t):
                cur = [s]
                for e, x in zip(t.elts, items):
                    cur = [y for c in cur for y in self.assign(e, c, x)]
                outs += cur
            return outs
        if isinstance(t, ast.Starred):
            return self.assign(t.value, st, v)
        return [st]

    def unpack(self, st, v, n, node):
        if v.k == "tup":
            if len(v.a) != n:
                self.throwx(st, "ValueError", node, "unpack")
                return []
            return [(st, v.a)]
        if v is NONE:
            self.definite(st, node, "unpacking None")
            self.throwx(st, "TypeError", node)
            return []
        items = self.exact_items(st, v)
        if items is not None:
            if len(items) != n:
                self.throwx(st, "ValueError", node, "unpack")
                return []
            return [(st, tuple(items))]
        o = st.get(v)
        seq = self.seq_of(st, v)
        if seq is not None:
            N = seqlen(seq)[0]
            zs, nz = self.split_eqz(st, ladd(N, lconst(-n)))
            for s in nz:
                self.throwx(s, "ValueError", node, "unpack")
            return [(s, tuple(self.seq_item(s, seq, const(i)) for i in range(n))) for s in zs]
        ty = typeof(st, v)
        if v.k == "app" and v.a[0] in ("pair",):
            return [(st, v.a[1:])]
        if ty in STRISH:
            zs, nz = self.split_eqz(st, ladd(lenof(v), lconst(-n)))
            for s in nz:
                self.throwx(s, "ValueError", node, "unpack")
            return [(s, tuple(app("char", v, const(i)) for i in range(n))) for s in zs]
        if ty in ("int", "bool", "float"):
            self.definite(st, node, "unpacking a number")
            self.throwx(st, "TypeError", node)
            return []
        return [(st, tuple(app("item", v, const(i)) for i in range(n)))]

    def s_Delete(self, s, st):
        cur = [st]
        for t in s.targets:
            nxt = []
            for x in cur:
                if isinstance(t, ast.Name):
                    if x.var(self.cx.fid, t.id) is not None:
                        x.delvar(self.cx.fid, t.id)
                    nxt.append(x)
                elif isinstance(t, ast.Attribute):
                    for y, o in self.ev(t.value, x):
                        nxt += self.delattr(y, o, t.attr, t)
                elif isinstance(t, ast.Subscript):
                    sl = t.slice.value if isinstance(t.slice, ast.Index) else t.slice
                    if isinstance(sl, ast.Slice):
                        for y, o in self.ev(t.value, x):
                            ob = y.get(o)
                            if ob is not None and ob.seq is not None:
                                y.mut(o).seq = (("seg", fresh("delslice")),) if not (sl.lower is None and sl.upper is None) else ()
                            nxt.append(y)
                    else:
                        for y, (o, k) in self.evs([t.value, sl], x):
                            nxt += self.delitem(y, o, k, t)
                else:
                    nxt.append(x)
            cur = nxt
        return cur

    def s_If(self, s, st):
        a, b = self.cond(s.test, st)
        for x in a:
            x.note(s, "if %s" % unparse(s.test))
        for x in b:
            x.note(s, "not (%s)" % unparse(s.test))
        return self.block(s.body, self.compact(a)) + self.block(s.orelse, self.compact(b))

    def s_Return(self, s, st):
        outs = self.ev(s.value, st) if s.value is not None else [(st, NONE)]
        self.cx.ret += outs
        return []

    def s_Break(self, s, st):
        self.cx.brk.append(st)
        return []

    def s_Continue(self, s, st):
        self.cx.cont.append(st)
        return []

    def s_FunctionDef(self, s, st):
        out = []
        for x, c in self.closure(s, st):
            x.setvar(self.cx.fid, s.name, c)
            out.append(x)
        return out

    def s_ClassDef(self, s, st):
        st.setvar(self.cx.fid, s.name, fresh("localclass"))
        return [st]

    def s_Import(self, s, st):
        for a in s.names:
            if a.asname:
                st.setvar(self.cx.fid, a.asname, self.prog._modref(a.name))
            else:
                top = a.name.split(".")[0]
                st.setvar(self.cx.fid, top, self.prog._modref(top))
        return [st]

    def s_ImportFrom(self, s, st):
        for a in s.names:
            v = self._lazy(("from", s.module or "", a.name, self.cx.mod), self.cx.mod, None, a.name)
            if v.k == "missing":
                self.definite(st, s, "cannot import %s" % v.a[0])
                self.throwx(st, "ImportError", s)
                return []
            st.setvar(self.cx.fid, a.asname or a.name, v)
        return [st]

    def s_Assert(self, s, st):
        a, b = self.cond(s.test, st)
        for x in b:
            self.throwx(x, "AssertionError", s)
        return self.compact(a)

    def s_Raise(self, s, st):
        if s.exc is None:
            e = st.var(self.cx.fid, "$exc")
            if e is None:
                e = fresh("exc")
            self.throw(st, e, s)
            return []
        for x, v in self.ev(s.exc, st):
            self.raise_value(x, v, s)
        return []

    def raise_value(self, st, v, node):
        if v.k == "cls":
            for s2, o in self.instantiate(st, v, (), {}, node):
                self.throw(s2, o, node)
            return
        if v.k == "ext":
            n = excname(v.a[0])
            if n in PY2_EXC:
                self.throw(st, T("exc", n, None, ()), node)
                return
        o = st.get(v)
        if v.k == "exc" or (o is not None and o.kind == "inst" and self.is_exc_class(o.cls)):
            self.throw(st, v, node)
            return
        if v.k in ("sym", "app") and typeof(st, v) is None:
            self.throw(st, v, node)
            return
        self.definite(st, node, "raises %s, which is not an exception" % self.vdesc(st, v))
        self.throwx(st, "TypeError", node)

    def s_Try(self, s, st):
        if s.finalbody:
            return self.try_finally(s, st)
        return self.try_except(s, st)

    def try_except(self, s, st):
        saved, self.exc = self.exc, []
        self.guards.append({n.id if isinstance(n, ast.Name) else n.attr for h in s.handlers if h.type is not None
                            for n in ast.walk(h.type) if isinstance(n, (ast.Name, ast.Attribute))})
        try:
            normal = self.block(s.body, [st])
        finally:
            self.guards.pop()
            raised, self.exc = self.exc, saved
        outs = self.block(s.orelse, normal) if s.orelse else normal
        groups = self.compact_vals(raised) if len(raised) > 1 else raised
        for x, exc in groups:
            cur = [x]
            for h in s.handlers:
                if not cur:
                    break
                nxt = []
                for y in cur:
                    if h.type is None:
                        outs += self.handle(h, y, exc)
                        continue
                    for z, cls in self.ev(h.type, y):
                        m = self.excmatch(z, exc, cls)
                        if m is True:
                            outs += self.handle(h, z, exc)
                        elif m is False:
                            nxt.append(z)
                        else:
                            outs += self.handle(h, z.fork(), exc)
                            nxt.append(z)
                cur = nxt
            for y in cur:
                self.exc.append((y, exc))
        return outs

    def handle(self, h, st, exc):
        st.note(h, "except %s" % (unparse(h.type) if h.type else ""))
        old = st.var(self.cx.fid, "$exc")
        st.setvar(self.cx.fid, "$exc", exc)
        if h.name:
            st.setvar(self.cx.fid, h.name, exc)
        n, m = len(self.cx.brk), len(self.cx.cont)
        outs = self.block(h.body, [st])
        for x in outs + self.cx.brk[n:] + self.cx.cont[m:]:
            if old is None:
                x.delvar(self.cx.fid, "$exc")
            else:
                x.setvar(self.cx.fid, "$exc", old)
        return outs

    def try_finally(self, s, st):
        cx = self.cx
        saved, self.exc = self.exc, []
        ret, brk, cont = cx.ret, cx.brk, cx.cont
        cx.ret, cx.brk, cx.cont = [], [], []
        try:
            if s.handlers or s.orelse:
                normal = self.try_except(s, st)
            else:
                normal = self.block(s.body, [st])
        finally:
            raised, self.exc = self.exc, saved
            r2, b2, c2 = cx.ret, cx.brk, cx.cont
            cx.ret, cx.brk, cx.cont = ret, brk, cont
        out = self.block(s.finalbody, normal)
        for x, e in raised:
            for y in self.block(s.finalbody, [x]):
                self.exc.append((y, e))
        for x, v in r2:
            for y in self.block(s.finalbody, [x]):
                cx.ret.append((y, v))
        for x in b2:
            cx.brk += self.block(s.finalbody, [x])
        for x in c2:
            cx.cont += self.block(s.finalbody, [x])
        return out

    def s_With(self, s, st):
        # contextlib-free: __enter__ / body / __exit__
        items = s.items
        return self.with_items(items, 0, s, st)

    def with_items(self, items, i, s, st):
        if i == len(items):
            return self.block(s.body, [st])
        it = items[i]
        outs = []
        cx = self.cx
        for x, m in self.ev(it.context_expr, st):
            for x2, f in self.getattr(x, m, "__enter__", s):
                for x3, v in self.call(x2, f, (), {}, s):
                    cur = self.assign(it.optional_vars, x3, v) if it.optional_vars is not None else [x3]
                    for y in cur:
                        saved, self.exc = self.exc, []
                        ret, brk, cont = cx.ret, cx.brk, cx.cont
                        cx.ret, cx.brk, cx.cont = [], [], []
                        try:
                            normal = self.with_items(items, i + 1, s, y)
                        finally:
                            raised, self.exc = self.exc, saved
                            r2, b2, c2 = cx.ret, cx.brk, cx.cont
                            cx.ret, cx.brk, cx.cont = ret, brk, cont

                        def leave(z, e=None):
                            res = []
                            for z2, g in self.getattr(z, m, "__exit__", s):
                                for z3, _ in self.call(z2, g, (NONE, NONE, NONE), {}, s):
                                    res.append(z3)
                            return res
                        for z in normal:
                            outs += leave(z)
                        for z, e in raised:
                            for z2 in leave(z, e):
                                self.exc.append((z2, e))
                        for z, v2 in r2:
                            cx.ret += [(z2, v2) for z2 in leave(z)]
                        for z in b2:
                            cx.brk += leave(z)
                        for z in c2:
                            cx.cont += leave(z)
        return outs

    # ------------------------------------------------------------------------------------------ loops
    def s_While(self, s, st):
        def step(x):
            a, b = self.cond(s.test, x)
            for y in a:
                y.note(s, "while %s" % unparse(s.test))
            return self.compact(a), self.compact(b)

        def body(x):
            return self.block(s.body, [x])
        exits, brks = self.loop(s, st, step, body)
        exits = self.block(s.orelse, self.compact(exits)) if s.orelse else exits
        return self.compact(exits + brks)

    def s_For(self, s, st):
        outs = []
        for x, it in self.ev(s.iter, st):
            brks = []

            def body(y, v):
                r = []
                for z in self.assign(s.target, y, v):
                    r += self.block(s.body, [z])
                return r
            ends = self.iterate(x, it, body, s, brks)
            if s.orelse:
                ends = self.block(s.orelse, self.compact(ends))
            outs += ends + brks
        return self.compact(outs)

    def with_loop_flow(self, fn, x, brks, cx=None):
        """run fn(x) with its own break/continue lists; returns the states that go round again"""
        cx = cx or self.cx
        brk, cont = cx.brk, cx.cont
        cx.brk, cx.cont = [], []
        try:
            r = fn(x)
            r = r + cx.cont
            brks += cx.brk
        finally:
            cx.brk, cx.cont = brk, cont
        return self.compact(r)

    def loop(self, node, st, step, body):
        """fixpoint; returns (exit states, break states)"""
        self.loops += 1
        cx = self.cx

        def one(head, exits, brks):
            a, b = step(head)
            exits += b
            back = []
            for x in a:
                back += self.with_loop_flow(body, x, brks, cx)
            return self.compact(back)
        return self.fix(node, st, one)

    # locations -------------------------------------------------------------------------------
    def getloc(self, st, loc):
        k = loc[0]
        if k == "k":
            return loc[1]
        if k == "v":
            f = st.frames.get(loc[1])
            return f.get(loc[2], ABSENT) if f is not None else ABSENT
        if k == "g":
            return st.ghost.get(loc[1], ABSENT)
        o = st.heap.get(loc[1])
        if o is None:
            return ABSENT
        if k == "a":
            return o.attrs.get(loc[2], ABSENT if not o.lazy else app("attr", T("obj", loc[1]), loc[2]))
        if k == "s":
            return o.seq
        if k == "e":
            return o.seq[loc[2]][1] if exact(o.seq) and len(o.seq) > loc[2] else ABSENT
        if k == "d":
            return (frozenset(o.ent.items()), o.base)
        if k == "x":
            return o.x

    def setloc(self, st, loc, v):
        k = loc[0]
        if k == "v":
            if v is ABSENT:
                st.delvar(loc[1], loc[2])
            else:
                st.setvar(loc[1], loc[2], v)
        elif k == "g":
            if v is ABSENT:
                st.ghost.pop(loc[1], None)
            else:
                st.ghost[loc[1]] = v
        else:
            o = st.mut(T("obj", loc[1]))
            if k == "a":
                o.attrs[loc[2]] = v
            elif k == "s":
                o.seq = v
            elif k == "e":
                o.seq = o.seq[:loc[2]] + (("one", v),) + o.seq[loc[2] + 1:]
            elif k == "d":
                o.ent, o.base = dict(v[0]), v[1]
            elif k == "x":
                o.x = v

    def difflocs(self, a, b, live=None):
        """locations of a whose value differs in b"""
        out = set()
        for fid, f in a.frames.items():
            g = b.frames.get(fid)
            if g is None or g is f:
                continue
            for n in set(f) | set(g):
                if f.get(n) is not g.get(n):
                    if live is not None and fid == self.cx.fid and n not in live and not n.startswith("$"):
                        continue
                    out.add(("v", fid, n))
        for oid, o in a.heap.items():
            p = b.heap.get(oid)
            if p is None or p is o:
                continue
            if o.attrs != p.attrs:
                for n in set(o.attrs) | set(p.attrs):
                    if o.attrs.get(n) is not p.attrs.get(n):
                        va, vb = self.getloc(a, ("a", oid, n)), self.getloc(b, ("a", oid, n))
                        if va is not vb:
                            out.add(("a", oid, n))
            if o.seq != p.seq:
                if exact(o.seq) and exact(p.seq) and len(o.seq) == len(p.seq) <= 8:
                    out |= {("e", oid, i) for i in range(len(o.seq)) if o.seq[i] != p.seq[i]}
                else:
                    out.add(("s", oid))
            if o.ent != p.ent or o.base is not p.base:
                out.add(("d", oid))
            if o.x is not p.x and o.x != p.x:
                out.add(("x", oid))
        for k in set(a.ghost) | set(b.ghost):
            if a.ghost.get(k) is not b.ghost.get(k) and a.ghost.get(k) != b.ghost.get(k):
                out.add(("g", k))
        return out

    PART = {None, True, False}

    def partkey(self, st, locs):
        """constant-like values a head is kept separate for"""
        key = []
        for l in locs:
            v = self.getloc(st, l)
            c = None
            if isinstance(v, Term):
                if v is ABSENT:
                    c = "absent"
                elif v.k == "c" and (v.a[1] is None or isinstance(v.a[1], bool)):
                    c = v
                elif v.k == "c" and l[0] == "g" and not isinstance(v.a[1], int):
                    c = v
            key.append(c)
        return tuple(key)

    def fix(self, node, st0, one):
        if self.unroll:
            return self.peel(node, st0, one)
        return self.fixpoint(node, st0, one)

    def starts(self, x, p, op="startswith"):
        """whether a text starts or ends with a constant, as far as its own constant end tells"""
        q = x.a[1 if op == "startswith" else -1] if x.k == "app" and x.a[0] == "cat" else x
        if q.k == "c" and isinstance(q.a[1], str) and (q is x or len(q.a[1]) >= len(p.a[1])):
            return TRUE if getattr(q.a[1], op)(p.a[1]) else FALSE
        if q is x and x.k == "app" and x.a[0] == "quote" and len(x.a) == 3 and p.k == "c" and x.a[2].k == "c" and len(p.a[1]) == 1 and \
                p.a[1] in x.a[2].a[1] and p.a[1] != "%":
            return self.starts(x.a[1], p, op)      # a safe character stays where it is
        return app(op, x, p)

    def peel(self, node, st0, one):
        """run the loop round by round as long as it goes on; what is left after that is widened"""
        exits, brks, cur = [], [], [st0]
        for _ in range(self.unroll):
            nxt = []
            for s in cur:
                nxt += one(s, exits, brks)
            cur = self.compact(nxt)
            if not cur:
                return self.compact(exits), self.compact(brks)
        self.rule.unbounded(self, node)
        for s in cur:
            a, b = self.fixpoint(node, s, one)
            exits += a
            brks += b
        return self.compact(exits), self.compact(brks)

    def fixpoint(self, node, st0, one):
        live = self.live_at_loop(node)
        W = []          # widened locations, ordered
        groups = {}     # loc -> representative loc (same value on every entry)
        types = {}
        reps = {}       # ghost sequence representation: loc -> tuple of locs or None
        rep_tried = {}
        deriv = {}      # loc -> locs its value is computed from, in the way it was before the loop
        der_tried = set()
        rounds = 0
        st0 = st0.fork()
        sawvals = {}
        self.rule.loop_head(self, st0, node) if self.dry == 0 else None
        while True:
            rounds += 1
            if rounds > 60:
                raise Budget("loop does not stabilise: %s" % self.where(node))
            key0 = self.partkey(st0, W)
            heads = {}
            invs = {}
            pend = [key0]
            restart = False
            results = {}
            while pend and not restart:
                key = pend.pop()
                if key in heads:
                    continue
                head = self.make_head(st0, W, key, types, groups, reps, node)
                self.derive(head, st0, W, key, deriv)
                heads[key] = head
                backs = self.dry_run(one, head.fork())
                results[key] = backs
                moved = set()
                for b in backs:
                    d = self.difflocs(head, b, live)
                    # an object made for a widened location holds anything anyway
                    d = {l for l in d if l[0] in ("v", "g") or l[1] in st0.heap}
                    new = [l for l in d if l not in W]
                    for l in d:
                        v = self.getloc(b, l)
                        if self.newtype(types, l, v, b, self.getloc(st0, l), st0):
                            restart = True
                    if new:
                        for l in sorted(new, key=str):
                            W.append(l)
                        restart = True
                    # representation of ghost sequences
                    for l in list(reps):
                        if reps[l] is not None and l not in moved and not self.rep_holds(b, l, reps[l]):
                            moved.add(l)
                            reps[l] = self.next_rep(st0, l, W, rep_tried)
                            restart = True
                    for l in list(deriv):
                        if not self.derived(b, st0, l, deriv[l]):
                            del deriv[l]
                            der_tried.add(l)
                            restart = True
                    for l, r in list(groups.items()):
                        if l != r and self.getloc(b, l) is not self.getloc(b, r):
                            groups[l] = l
                            restart = True
                if restart:
                    break
                for b in backs:
                    k2 = self.partkey(b, W)
                    if k2 not in heads and k2 not in pend:
                        pend.append(k2)
                if len(heads) > self.maxparts:
                    raise Budget("too many loop partitions: %s" % ", ".join(
                        "%s %s" % (l[1] if l[0] == "g" else l[2] if len(l) > 2 else l[0], sorted({show(k[i]) if isinstance(k[i], Term) else str(k[i]) for k in heads}))
                        for i, l in enumerate(W) if len({k[i] for k in heads}) > 1))
            if restart:
                for l in W:
                    if l[0] == "g" and str(l[1]).startswith("G:") and reps.get(l) is None:
                        reps[l] = self.next_rep(st0, l, W, rep_tried)
                    if l not in groups:
                        groups[l] = l
                        v0 = self.getloc(st0, l)
                        if isinstance(v0, Term) and l[0] in ("v", "a") and v0.k in ("obj", "sym", "app"):
                            for m in groups:
                                if m != l and groups[m] == m and m[0] in ("v", "a") and self.getloc(st0, m) is v0:
                                    groups[l] = m
                                    break
                for l in W:
                    v0 = self.getloc(st0, l)
                    if l not in deriv and l not in der_tried and l[0] in ("v", "a") and groups.get(l) == l and isinstance(v0, Term) and v0.k == "app":
                        sub = subterms(v0)
                        ms = []
                        for m in W:
                            w0 = self.getloc(st0, m)
                            if m != l and m not in deriv and m[0] in ("v", "a") and groups.get(m) == m and isinstance(w0, Term) and w0 is not v0 and w0.k in ("app", "sym") \
                                    and w0 in sub and not any(self.getloc(st0, x) is w0 for x in ms):
                                ms.append(m)
                        if ms:
                            deriv[l] = tuple(ms)
                continue
            break
        # numeric invariants by guess and check
        dims = self.loop_dims(st0, W, heads)
        cands = self.guess(st0, dims, heads, results, W)
        changed = True
        it = 0
        while changed and it < 12:
            it += 1
            changed = False
            for key, head in heads.items():
                h = self.with_inv(head, dims, cands.get(key, ()))
                backs = self.dry_run(one, h)
                for b in backs:
                    k2 = self.partkey(b, W)
                    if k2 not in cands:
                        cands[k2] = []
                    bd = self.dim_values(b, dims)
                    keep = []
                    for c in cands[k2]:
                        if entails(b, lsub_dims(c, bd)):
                            keep.append(c)
                        else:
                            changed = True
                    cands[k2] = keep
        if changed:
            cands = {}
        exits, brks = [], []
        for key, head in heads.items():
            h = self.with_inv(head, dims, cands.get(key, ()))
            hh = h.fork()
            backs = one(h, exits, brks)
            if self.dry == 0:
                for b in backs:
                    self.rule.loop_back(self, hh, b, node)
        return self.compact(exits), self.compact(brks)

    def derivation(self, st, st0, l, ms):
        m = {}
        for x in ms:
            v = self.getloc(st, x)
            if not isinstance(v, Term) or v is ABSENT:
                return None
            m[self.getloc(st0, x)] = v
        return subst(self.getloc(st0, l), m)

    def derive(self, head, st0, W, key, deriv):
        for l, ms in deriv.items():
            i = W.index(l)
            if i < len(key) and key[i] is not None:
                continue
            v = self.derivation(head, st0, l, ms)
            if v is not None:
                self.setloc(head, l, v)

    def derived(self, b, st0, l, ms):
        v, w = self.derivation(b, st0, l, ms), self.getloc(b, l)
        if v is w:
            return True
        return v is not None and isinstance(w, Term) and typeof(b, w) == "int" and typeof(b, v) == "int" and entails_eq(b, lin(w), lin(v))

    def dry_run(self, one, h):
        """one pass over a loop body whose side results (returns, breaks, raised exceptions) are discarded"""
        cxs, c = [], self.cx
        while c is not None:
            cxs.append((c, c.ret, c.brk, c.cont))
            c = c.up
        sinks, saved = [list(x) for x in self.sinks], self.exc
        for c, r, b, k in cxs:
            c.ret, c.brk, c.cont = [], [], []
        self.exc = []
        self.dry += 1
        try:
            return one(h, [], [])
        finally:
            self.dry -= 1
            self.exc = saved
            for c, r, b, k in cxs:
                c.ret, c.brk, c.cont = r, b, k
            for x, y in zip(self.sinks, sinks):
                x[:] = y

    def where(self, node):
        return "%s:%s" % (self.cx.fi.qual if self.cx and self.cx.fi else "?", getattr(node, "lineno", "?"))

    def newtype(self, types, loc, v, st, v0, st0):
        """extend the type description of a widened location; True when it changed"""
        t = types.get(loc)
        if t is None:
            t = types[loc] = self.vtype(v0, st0)
        n = join_type(t, self.vtype(v, st))
        if n != t:
            types[loc] = n
            return True
        return False

    def vtype(self, v, st):
        if not isinstance(v, Term):
            return frozenset()
        if v is ABSENT or v is NONE:
            return frozenset()
        o = st.get(v)
        if o is not None:
            n = tuple(typeof(st, x) for _, x in o.seq) if o.kind == "list" and exact(o.seq) and 0 < len(o.seq) <= 4 else None
            return frozenset([("obj", o.kind, o.cls, v if o.kind in ("gen", "fn") else None, n)])
        if v.k == "c" and isinstance(v.a[1], bool):
            return frozenset(["bool"])
        if v.k in ("func", "cls", "clo", "bound", "ext", "mod", "exc", "tup", "super"):
            return frozenset([("k", v.k, len(v.a) if v.k == "tup" else v)])
        ty = typeof(st, v)
        if ty is None and st.facts.get(app("isnone", v)) is False:
            return frozenset(["?nn"])
        return frozenset([ty])

    def make_head(self, st0, W, key, types, groups, reps, node):
        head = st0.fork()
        syms = {}
        for i, l in enumerate(W):
            rep = groups.get(l, l)
            v0 = self.getloc(st0, l)
            if l[0] == "e" and ("s", l[1]) in W:
                continue
            if key[i] is not None and i < len(key):
                c = key[i]
                self.setloc(head, l, ABSENT if c == "absent" else c)
                continue
            if rep != l and rep in syms:
                self.setloc(head, l, syms[rep])
                continue
            name = "L%s.%s" % (getattr(node, "lineno", ""), l[2] if len(l) > 2 else l[1])
            sid = ("loop", id(node), l, key)
            if l[0] == "s":
                v = (("seg", T("sym", sid, name, None, ())),)
                self.setloc(head, l, v)
                continue
            if l[0] == "d":
                o = st0.heap[l[1]]
                # entries are forgotten, the mapping may hold anything
                self.setloc(head, l, (frozenset(), T("sym", sid, name, None, ())))
                continue
            if l[0] == "x":
                continue
            ty = types.get(l, frozenset([None]))
            v = self.widened(head, ty, sid, name, node, v0)
            syms[l] = v
            self.setloc(head, l, v)
        for l, r in reps.items():
            if r is not None and l in W:
                self.setloc(head, l, mkcat(*[self.seqval(head, x) for x in r]))
        return head

    def widened(self, head, ty, sid, name, node, v0):
        tys = set(ty)
        nn = "?nn" in tys
        tys.discard("?nn")
        if nn and not tys:
            v = T("sym", sid, name, None, ())
            head.facts[app("isnone", v)] = False
            return v
        if len(tys) > 1 and len({t[:4] if isinstance(t, tuple) and t[0] == "obj" else t for t in tys}) == 1:
            ns = [t[4] for t in tys]
            n = None
            if None not in ns and len({len(x) for x in ns}) == 1:
                n = tuple(x[0] if len(set(x)) == 1 else None for x in zip(*ns))
            tys = {next(iter(tys))[:4] + (n,)}
        if len(tys) == 1:
            t = next(iter(tys))
            if isinstance(t, tuple) and t[0] == "obj":
                _, kind, cls, same, n = t
                if same is not None:
                    return same
                o = Obj(kind, cls=cls, lazy=True)
                if n is not None:
                    o.seq = tuple(("one", T("sym", (sid, i), "%s%d" % (name, i), x if isinstance(x, str) else None, ())) for i, x in enumerate(n))
                elif kind in ("list", "set"):
                    o.seq = (("seg", T("sym", sid, name, None, ())),)
                elif kind == "dict":
                    o.ent, o.base = {}, T("sym", sid, name, None, ())
                elif kind == "inst" and cls is not None and cls.k == "cls":
                    b = self.extbase(cls.a[0])
                    if b == "dict":
                        o.ent, o.base = {}, T("sym", sid, name, None, ())
                    elif b in ("list", "tuple", "set"):
                        o.seq = (("seg", T("sym", sid, name, None, ())),)
                return head.new(o, sid)
            if isinstance(t, tuple):
                if t[1] == "tup":
                    return T("tup", *[T("sym", (sid, i), name + str(i), None, ()) for i in range(t[2])])
                return t[2]
            return T("sym", sid, name, t, ())
        st = {t for t in tys}
        if st and st <= {"str", "unicode", "text"}:
            return T("sym", sid, name, "text", ())
        v = T("sym", sid, name, None, ())
        return v

    # ghost sequences ---------------------------------------------------------------------------
    def seqval(self, st, loc):
        v = self.getloc(st, loc)
        if loc[0] == "s":
            return flat(v or ())
        if isinstance(v, Term):
            if v is ABSENT or v is NONE:
                return const("")
            o = st.get(v)
            if o is not None and o.seq is not None:
                return flat(o.seq)
            return v
        return const("")

    def rep_holds(self, st, l, r):
        g = self.getloc(st, l)
        return isinstance(g, Term) and self.norm_eq(st, g, mkcat(*[self.seqval(st, x) for x in r]))

    def norm_eq(self, st, a, b):
        """equal strings, also using known-empty parts"""
        if a is b:
            return True
        a, b = self.strip_empty(st, a), self.strip_empty(st, b)
        if a is b:
            return True
        a, b = self.norm_slices(st, a), self.norm_slices(st, b)
        return a is b or self.same_parts(st, a, b)

    def same_parts(self, st, a, b):
        """the same pieces, with slices whose ends are equal?"""
        xs = a.a[1:] if a.k == "app" and a.a[0] == "cat" else (a,)
        ys = b.a[1:] if b.k == "app" and b.a[0] == "cat" else (b,)
        if len(xs) != len(ys):
            return False
        for x, y in zip(xs, ys):
            if x is y:
                continue
            if not all(t.k == "app" and t.a[0] == "slice" for t in (x, y)) or x.a[1] is not y.a[1]:
                return False
            for i, d in ((2, lconst(0)), (3, lenof(x.a[1]))):
                p, q = [d if t.a[i] is NONE else lin(t.a[i]) for t in (x, y)]
                if not entails_eq(st, p, q):
                    return False
        return True

    def strip_empty(self, st, t):
        xs = t.a[1:] if t.k == "app" and t.a[0] == "cat" else (t,)
        out = []
        for x in xs:
            if x.k != "c" and entails(st, lscale(lenof(x), -1)):
                continue
            v = st.facts.get(app("val", x))
            out.append(v if v is not None and isinstance(v.a[1], str) else x)
        return mkcat(*out)

    def norm_slices(self, st, t):
        xs = t.a[1:] if t.k == "app" and t.a[0] == "cat" else (t,)
        out = []
        for x in xs:
            while x.k == "app" and x.a[0] == "slice":
                y, lo, hi = x.a[1], x.a[2], x.a[3]
                if lo is NONE and hi is not NONE and entails(st, ladd(lin(hi), lenof(y), -1)):
                    x = y
                elif hi is NONE and lo is not NONE and entails(st, lscale(lin(lo), -1)) and entails(st, lin(lo)):
                    x = y
                else:
                    break
            out.append(x)
        return mkcat(*out)

    def next_rep(self, st0, l, W, tried):
        locs = []
        for w in W:
            if w == l:
                continue
            if w[0] == "s" or (w[0] in ("v", "a", "g") and isinstance(self.getloc(st0, w), Term) and self.strlike(st0, self.getloc(st0, w))):
                locs.append(w)
        done = tried.setdefault(l, set())
        g0 = self.getloc(st0, l)
        if not isinstance(g0, Term):
            return None
        for pre in (False, True):
            # with a prefix: what was recorded before the loop began
            for n in (1, 2, 3):
                for r in itertools.permutations(locs, n):
                    if (pre, r) in done:
                        continue
                    done.add((pre, r))
                    c = mkcat(*[self.seqval(st0, x) for x in r])
                    if not pre:
                        if self.norm_eq(st0, g0, c):
                            return r
                        continue
                    k = self.cut_suffix(st0, g0, c)
                    if k is not None:
                        return (("k", k),) + r
        return None

    def cut_suffix(self, st, g, c):
        """p with g == p + c"""
        def parts(t):
            return list(t.a[1:]) if t.k == "app" and t.a[0] == "cat" else [t] if t is not const("") else []
        xs, ys = parts(self.strip_empty(st, g)), parts(self.strip_empty(st, c))
        if not xs or len(ys) > len(xs):
            return None
        n = len(xs) - len(ys)
        if ys and ys[0].k == "app" and ys[0].a[0] == "slice" and ys[0].a[3] is NONE and xs[n] is ys[0].a[1]:
            if self.norm_eq(st, mkcat(*xs[n + 1:]), mkcat(*ys[1:])):
                return mkcat(*(xs[:n] + [mkslice(xs[n], NONE, ys[0].a[2])]))
        return mkcat(*xs[:n]) if n and self.norm_eq(st, mkcat(*xs[n:]), c) else None

    def strlike(self, st, v):
        if v is NONE:
            return False
        o = st.get(v)
        if o is not None:
            return o.kind == "list"
        return isstr(st, v)

    # numeric dimensions ---------------------------------------------------------------------
    def loop_dims(self, st0, W, heads):
        """[(name, getter)]: the numeric measures of the widened locations"""
        dims = []
        for l in W:
            kinds = set()
            for st in [st0] + list(heads.values()):
                v = self.getloc(st, l)
                if l[0] == "s":
                    kinds |= {"n", "total"}
                elif isinstance(v, Term) and v is not ABSENT:
                    o = st.get(v)
                    if o is not None and o.kind == "list" and exact(o.seq) and len(o.seq) <= 4 and any(typeof(st, x) == "int" for _, x in o.seq):
                        kinds |= {("el", i) for i, (_, x) in enumerate(o.seq) if typeof(st, x) == "int"}
                    elif o is not None and o.seq is not None:
                        kinds |= {"n", "total"}
                    elif isstr(st, v):
                        kinds.add("len")
                    elif typeof(st, v) == "int":
                        kinds.add("int")
            for k in sorted(kinds, key=str):
                dims.append((l, k))
        return dims[:14]

    def dim_value(self, st, d):
        l, k = d
        v = self.getloc(st, l)
        if l[0] == "s":
            n, t = seqlen(v or ())
            return n if k == "n" else t
        if not isinstance(v, Term) or v is ABSENT or v is NONE:
            return None
        o = st.get(v)
        if k in ("n", "total"):
            if o is None or o.seq is None:
                return None
            n, t = seqlen(o.seq)
            return n if k == "n" else t
        if isinstance(k, tuple):
            if o is None or not exact(o.seq) or len(o.seq) <= k[1] or typeof(st, o.seq[k[1]][1]) != "int":
                return None
            return lin(o.seq[k[1]][1])
        if k == "len":
            return lenof(v) if isstr(st, v) else None
        if k == "int":
            return lin(v) if typeof(st, v) == "int" else None

    def dim_values(self, st, dims):
        return {d: self.dim_value(st, d) for d in dims}

    def guess(self, st0, dims, heads, results, W):
        v0 = self.dim_values(st0, dims)
        hv = {k: self.dim_values(h, dims) for k, h in heads.items()}
        bvs = []
        for k, bs in results.items():
            for b in bs:
                bvs.append((k, self.partkey(b, W), b, self.dim_values(b, dims)))
        use = [d for d in dims if v0[d] is not None and all(x[d] is not None for x in hv.values())]
        cands = []
        # equalities: differences vanish on every back edge (inductive by themselves)
        deltas = {}
        for d in use:
            deltas[d] = [ladd(bv[d], hv[k][d], -1) if bv[d] is not None else None for k, k2, b, bv in bvs]
        for n in (1, 2, 3, 4):
            if n == 4 and len(use) > 7:
                break
            for ds in itertools.combinations(use, n):
                for signs in itertools.product((1, -1), repeat=n - 1):
                    cs = (1,) + signs
                    ok = True
                    for i in range(len(bvs)):
                        acc = {}
                        for d, c in zip(ds, cs):
                            if deltas[d][i] is None:
                                ok = False
                                break
                            acc = ladd(acc, lscale(deltas[d][i], c))
                        if not ok or acc:
                            ok = ok and not acc
                            if not ok:
                                # may still hold through the back state's own constraints
                                if acc and len(use) <= 5 and n <= 3 and entails_eq(bvs[i][2], acc, {}):
                                    ok = True
                                    continue
                                break
                    if ok:
                        init = {}
                        for d, c in zip(ds, cs):
                            init = ladd(init, lscale(v0[d], c))
                        form = ({d: c for d, c in zip(ds, cs)}, lscale(init, -1))
                        cands.append(form)
                        cands.append(({d: -c for d, c in zip(ds, cs)}, init))
        # inequalities
        for d in use:
            cands.append(({d: 1}, lscale(v0[d], -1)))
            cands.append(({d: -1}, v0[d]))
            cands.append(({d: 1}, {}))
        for d1, d2 in itertools.permutations(use[:8], 2):
            cands.append(({d1: 1, d2: -1}, ladd(v0[d2], v0[d1], -1)))
        # bounds harvested from the guards on the back edges
        harvested = set()
        for k, k2, b, bv in bvs:
            htok = hv[k]
            for key in b.lin:
                if key in st0.lin:
                    continue
                c = dict(key)
                # a loop-constant term of a guard may bound any measure
                for a in c:
                    if a is not None and ("bound", a) not in harvested and not self.iter_local(a, st0, W):
                        harvested.add(("bound", a))
                        for d in use:
                            cands.append(({d: 1}, {a: -1}))
                            cands.append(({d: -1}, {a: 1}))
                for d in use:
                    # the guard itself, and the guard weakened by one
                    h1 = htok[d]
                    if len(h1) == 1 and None not in h1:
                        a, k1 = next(iter(h1.items()))
                        if k1 == 1 and a in c:
                            rest = {x: y for x, y in c.items() if x is not a}
                            if not any(x is not None and self.iter_local(x, st0, W) for x in rest):
                                for z in (0, 1):
                                    r = ladd(rest, lconst(z))
                                    key2 = (d, c[a], lkey(dict(r)), z)
                                    if key2 not in harvested:
                                        harvested.add(key2)
                                        cands.append(({d: c[a]}, r))
                    if bv[d] is None or not bv[d] or set(bv[d]) <= {None}:
                        continue
                    for s in (1, -1):
                        r = ladd(c, bv[d], s)
                        if len(r) >= len(c) and len(bv[d]) > 1:
                            continue
                        if any(a is not None and self.iter_local(a, st0, W) for a in r):
                            continue
                        f = ({d: -s}, tuple(sorted(r.items(), key=lambda p: p[0].n if p[0] is not None else 0)))
                        key2 = (d, -s, f[1])
                        if key2 not in harvested:
                            harvested.add(key2)
                            cands.append(({d: -s}, r))
        out = {}
        for k in heads:
            # for partitions where a dimension is missing the candidate is dropped
            out[k] = [c for c in cands if all(hv[k][d] is not None for d in c[0])]
        # must hold on entry
        k0 = self.partkey(st0, W)
        out[k0] = [c for c in out.get(k0, []) if entails(st0, lsub_dims(c, v0))]
        return out

    def iter_local(self, a, st0, W):
        """does the term depend on a value of one particular iteration?"""
        for x in subterms(a):
            if x.k == "sym":
                if isinstance(x.a[0], tuple) and x.a[0] and x.a[0][0] == "loop":
                    if any(x.a[0][2] == w for w in W):
                        return True
                elif isinstance(x.a[0], int) and x.a[0] > self.loop_mark.get(id(st0), 10 ** 12):
                    return True
        return False

    loop_mark = {}

    def with_inv(self, head, dims, cands):
        h = head.fork()
        hv = self.dim_values(h, dims)
        for c in sorted(cands, key=lambda c: len(c[0])):
            l = lsub_dims(c, hv)
            if not entails(h, l):
                add_lin(h, l)
        return h

    # liveness -------------------------------------------------------------------------------
    def live_at_loop(self, node):
        """names live at the loop head (None: unknown, everything)"""
        fi = self.cx.fi
        if fi is None or isinstance(fi.node, ast.Lambda):
            return None
        if fi.live is None:
            fi.live = liveness(fi, self.captured(fi))
        return fi.live.get(("loop", id(node)))

    def live_after(self, node):
        fi = self.cx.fi
        if fi is None or isinstance(fi.node, ast.Lambda):
            return None
        if fi.live is None:
            fi.live = liveness(fi, self.captured(fi))
        return fi.live.get(id(node))

    # merging --------------------------------------------------------------------------------
    def compact(self, states, stmt=None):
        if stmt is not None and states:
            live = self.live_after(stmt)
            if live is not None:
                fid = self.cx.fid
                for s in states:
                    f = s.frames.get(fid)
                    if f:
                        dead = [n for n in f if n not in live and not n.startswith("$")]
                        if dead:
                            s.frames[fid] = {n: v for n, v in f.items() if n in live or n.startswith("$")}
        if len(states) <= 1:
            return states
        groups = {}
        for s in states:
            groups.setdefault(self.signature(s), []).append(s)
        out = [g[0] if len(g) == 1 else self.merge(g) for g in groups.values()]
        if len(out) > self.cap:
            out = self.force_join(out)
        return out

    def compact_vals(self, outs, held=()):
        if len(outs) <= 1:
            return outs
        groups = {}
        for s, v in outs:
            groups.setdefault((v, self.signature(s, (v,) + held)), []).append(s)
        return [(g[0] if len(g) == 1 else self.merge(g), k[0]) for k, g in groups.items()]

    def signature(self, s, held=()):
        reach = self.reachable(s, held)
        base = self.mstate.heap
        return (frozenset((fid, frozenset(f.items())) for fid, f in s.frames.items()),
                frozenset((oid, o.sig()) for oid, o in s.heap.items() if oid in reach and base.get(oid) is not o),
                frozenset((k, v) for k, v in s.ghost.items()),
                self.keep_facts and self.kept(s))

    def kept(self, s):
        """the facts joined states must agree on"""
        if self.keep_facts is True:
            return (frozenset(s.facts.items()), s.lin)
        fv, lv = self.keep_facts
        return (frozenset((k, v) for k, v in s.facts.items() if k in fv),
                frozenset(c for c in s.lin if all(a is None or a in lv for a, _ in c)))

    def reachable(self, s, held=()):
        """the objects a continuation can get at: everything older than this activation, and what the
        frames, ghosts and old objects lead to (an object made here and dropped again does not matter)"""
        b0 = getattr(self.cx, "birth0", None)
        if b0 is None:
            return s.heap.keys()
        todo, seen = [], set()
        base = self.mstate.heap
        for oid, o in s.heap.items():
            if base.get(oid) is o:
                # a module-level object nobody changed leads to such objects only
                seen.add(oid)
            elif o.birth < b0:
                seen.add(oid)
                todo.append(o)
        def reach(v):
            for oid in orefs(v):
                if oid not in seen and oid in s.heap:
                    seen.add(oid)
                    todo.append(s.heap[oid])
        for f in s.frames.values():
            for v in f.values():
                reach(v)
        for v in held:
            reach(v)
        for v in s.ghost.values():
            reach(v)
        while todo:
            o = todo.pop()
            if o.cls is not None:
                reach(o.cls)
            for v in o.attrs.values():
                reach(v)
            if o.seq:
                for q in o.seq:
                    reach(q[1])
            if o.ent:
                for k, v in o.ent.items():
                    reach(k)
                    reach(v)
            if o.base is not None:
                reach(o.base)
            if o.x is not None:
                reach(o.x)
        return seen

    def merge(self, g):
        a = g[0].fork()
        for b in g[1:]:
            facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v}
            la = set()
            for c in a.lin:
                if c in b.lin or entails(b, dict(c)):
                    la.add(c)
            for c in b.lin:
                if c not in la and entails(a, dict(c)):
                    la.add(c)
            a.facts = facts
            a.lin = frozenset(la)
            cnt = dict(a.cnt)
            for k, v in b.cnt.items():
                if v > cnt.get(k, 0):
                    cnt[k] = v
            a.cnt = cnt
            a.nid = max(a.nid, b.nid)
            for oid, o in b.heap.items():
                if oid not in a.heap:
                    a.heap[oid] = o
        return a

    def force_join(self, states):
        """join states pairwise by replacing what differs with unknowns"""
        raise Budget("state explosion in %s" % (self.cx.fi.qual if self.cx.fi else "?"))


# ------------------------------------------------------------------------------------------------ helpers
_orefs = {}


def orefs(v):
    """the objects a value mentions"""
    if not isinstance(v, Term):
        if isinstance(v, (tuple, frozenset)):
            out = ()
            for x in v:
                out += orefs(x)
            return out
        return ()
    r = _orefs.get(v)
    if r is None:
        if v.k == "obj":
            r = (v.a[0],)
        else:
            acc = []
            for x in v.a:
                if isinstance(x, (Term, tuple, frozenset)):
                    for y in orefs(x):
                        if y not in acc:
                            acc.append(y)
            r = tuple(acc)
        _orefs[v] = r
    return r


def exact(seq):
    return seq is not None and all(k == "one" for k, _ in seq)


def lsub_dims(c, vals):
    """candidate ({dim: coef}, linear rest) evaluated in a state"""
    r = dict(c[1]) if isinstance(c[1], dict) else dict(c[1])
    for d, k in c[0].items():
        v = vals.get(d)
        if v is None:
            return {None: -1}
        r = ladd(r, lscale(v, k))
    return r


def join_type(a, b):
    return a | b


def same_const(a, b):
    if a.a[0] in ("str", "unicode") and b.a[0] in ("str", "unicode"):
        return a.a[1] == b.a[1]
    if a.a[0] == "none" or b.a[0] == "none":
        return a.a[0] == b.a[0]
    return a.a[1] == b.a[1]


def seqterm(seq):
    if len(seq) == 1 and seq[0][0] == "seg":
        return seq[0][1]
    return app("listc", *[app(k, x) for k, x in seq])


def mk_not(t):
    if t.k == "c":
        return const(not t.a[1])
    if t.k == "app" and t.a[0] == "not":
        return t.a[1]
    if t.k == "ge0":
        return T("ge0", lkey(ladd(lscale(dict(t.a[0]), -1), lconst(-1))))
    return app("not", t)


def srcfile(mod):
    return app("typed", app("srcfile", const(mod.path)), "str")


def mk_and(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    return app("and", a, b)


def mk_or(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    return app("or", a, b)


def T_eqz(l):
    if set(l) <= {None}:
        return TRUE if not l.get(None, 0) else FALSE
    k = lkey(l)
    # canonical sign
    k2 = lkey(lscale(l, -1))
    if tuple(sorted((a.n if a is not None else 0, c) for a, c in k)) < tuple(sorted((a.n if a is not None else 0, c) for a, c in k2)):
        k = k2
    return app("eqz", k)


def excname(n):
    n = EXC_ALIAS.get(n, n)
    if n.startswith("exceptions."):
        n = n[11:]
    if n.startswith("__builtin__."):
        n = n[12:]
    return n


def canon_ext(n):
    return models.canon(n)


def unparse(e):
    try:
        return ast.unparse(e)[:70]
    except Exception:
        return "?"


def liveness(fi, captured):
    """names live after each statement of a function, and at each loop head"""
    res = {}
    always = set(captured)

    def uses(n):
        out = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)):
                out.add(x.id)
        return out

    def defs(n):
        out = set()
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    out.add(t.id)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    out |= {e.id for e in t.elts if isinstance(e, ast.Name)}
        return out

    def seq(body, out, ex, brk, cont):
        cur = set(out)
        for s in reversed(body):
            res[id(s)] = res.get(id(s), set()) | cur | ex | always
            cur = stmt(s, cur, ex, brk, cont)
        return cur

    def stmt(s, out, ex, brk, cont):
        if isinstance(s, ast.If):
            return uses(s.test) | seq(s.body, out, ex, brk, cont) | seq(s.orelse, out, ex, brk, cont) | ex
        if isinstance(s, (ast.While, ast.For)):
            after = seq(s.orelse, out, ex, brk, cont) if s.orelse else set(out)
            head = set(after) | uses(s.test if isinstance(s, ast.While) else s.target)
            if isinstance(s, ast.While):
                head |= uses(s.test)
            for _ in range(4):
                b = seq(s.body, head, ex, set(out), head)
                tgt = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)} if isinstance(s, ast.For) else set()
                nh = head | (b - tgt)
                if nh == head:
                    break
                head = nh
            res[("loop", id(s))] = res.get(("loop", id(s)), set()) | head | ex | always
            return head | (uses(s.iter) if isinstance(s, ast.For) else set()) | ex
        if isinstance(s, ast.Try):
            fin = seq(s.finalbody, out | ex | brk | cont, ex, brk, cont) if s.finalbody else set()
            o2 = (fin | set()) if s.finalbody else set(out)
            hx = set(ex) | fin
            hs = set()
            for h in s.handlers:
                hb = seq(h.body, o2 | (out if not s.finalbody else set()), hx, brk | fin, cont | fin)
                if h.type is not None:
                    hb |= uses(h.type)
                hs |= hb - ({h.name} if h.name else set())
            after = seq(s.orelse, o2, hx, brk | fin, cont | fin) if s.orelse else o2
            return seq(s.body, after, hx | hs, brk | fin, cont | fin) | hs | ex
        if isinstance(s, ast.With):
            u = set()
            for i in s.items:
                u |= uses(i.context_expr)
            return u | seq(s.body, out, ex, brk, cont) | ex | {"self"}
        if isinstance(s, ast.Return):
            return (uses(s.value) if s.value is not None else set()) | ex
        if isinstance(s, ast.Break):
            return set(brk) | ex
        if isinstance(s, ast.Continue):
            return set(cont) | ex
        if isinstance(s, ast.Raise):
            return uses(s) | ex
        if isinstance(s, (ast.FunctionDef,)):
            return (out - {s.name}) | uses(s) | ex
        if isinstance(s, ast.AugAssign):
            return out | uses(s) | ({s.target.id} if isinstance(s.target, ast.Name) else set()) | ex
        return (out - defs(s)) | uses(s) | ex
    if isinstance(fi.node, ast.FunctionDef):
        seq(fi.node.body, set(), set(), set(), set())
    return res
