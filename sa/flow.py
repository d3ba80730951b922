"""Flow-insensitive, interprocedural tags: which expressions may denote which things.  Locals are kept per function, attributes by
name, callees by resolved name or, for methods, by method name over all classes of the package."""
import ast
from loader import PKG


def scope(fi):
    """nodes of a function, nested functions and classes left out"""
    todo = list(fi.node.body) if isinstance(fi.node.body, list) else [fi.node.body]
    a = fi.node.args
    todo += a.defaults + [d for d in a.kw_defaults if d is not None]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def inside(tags):
    """the tags of a container of such things"""
    return frozenset(t if t.endswith("*") else t + "*" for t in tags)


def outof(tags):
    """the tags of what is taken out of a container"""
    return frozenset(t[:-1] for t in tags if t.endswith("*"))


class Flow:
    """subclasses give the tags of sources (param, attr, call, name); this class carries them around"""
    FRESH = frozenset("list tuple dict set frozenset sorted str unicode bytes len int repr copy deepcopy bool float isinstance hasattr".split())

    def __init__(self, prog):
        self.prog = prog
        self.funcs = {q: f for q, f in prog.funcs.items() if isinstance(q, str) and q.startswith(PKG + ".") and ".tests" not in q}
        self.mods = {m.name: m for m in prog.mods.values() if m.name.startswith(PKG) and ".tests" not in m.name}
        self.var, self.field, self.ret = {}, {}, {}
        self.bymethod = {}
        for q, f in self.funcs.items():
            self.bymethod.setdefault(f.node.name if isinstance(f.node, ast.FunctionDef) else "<lambda>", []).append(f)
        self.classes = {q: c for q, c in prog.classes.items() if isinstance(q, str) and q.startswith(PKG + ".") and ".tests" not in q}
        self.changed = True
        self.rounds = 0

    # -- to be overridden
    def t_param(self, fi, name):
        return ()

    def t_attr(self, fi, node, base):
        return ()

    def t_call(self, fi, node, base, args):
        return ()

    def t_name(self, fi, name):
        return ()

    # -- fixpoint
    def run(self):
        while self.changed and self.rounds < 40:
            self.changed = False
            self.rounds += 1
            for f in self.funcs.values():
                self.function(f)
            for m in self.mods.values():
                self.module(m)
        return self

    def add(self, d, k, tags):
        tags = frozenset(tags)
        old = d.get(k, frozenset())
        if not tags <= old:
            d[k] = old | tags
            self.changed = True

    def module(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and n in m.tree.body:
                for t in n.targets:
                    self.store(None, t, n.value, m)

    def function(self, f):
        for n in scope(f):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.store(f, t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.store(f, n.target, n.value)
            elif isinstance(n, ast.AugAssign):
                self.store(f, n.target, n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                self.bind(f, n.target, self.elems(f, n.iter))
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        self.bind(f, i.optional_vars, self.tags(f, i.context_expr))
            elif isinstance(n, ast.Return) and n.value is not None:
                self.add(self.ret, f.qual, self.tags(f, n.value))
            elif isinstance(n, (ast.Yield,)) and n.value is not None:
                self.add(self.ret, f.qual, self.tags(f, n.value))
            elif isinstance(n, ast.Call):
                self.pass_args(f, n)
        if isinstance(f.node, ast.Lambda):
            self.add(self.ret, f.qual, self.tags(f, f.node.body))

    def store(self, f, target, value, mod=None):
        if isinstance(target, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(target.elts):
                for t, v in zip(target.elts, value.elts):
                    self.store(f, t, v, mod)
            else:
                self.bind(f, target, self.tags(f, value), mod)
            return
        self.bind(f, target, self.tags(f, value), mod)

    def bind(self, f, t, tags, mod=None):
        if not tags:
            return
        if isinstance(t, ast.Name):
            self.add(self.var, (self.home(f, t.id) if f else mod.name, t.id), tags)
        elif isinstance(t, ast.Attribute):
            self.add(self.field, t.attr, tags)
        elif isinstance(t, ast.Subscript):
            self.bind(f, t.value, inside(tags), mod)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(f, x, tags, mod)
        elif isinstance(t, ast.Starred):
            self.bind(f, t.value, tags, mod)

    def home(self, f, name):
        """the scope a name lives in"""
        from prog import assigned_names
        g = f
        while g is not None:
            if g.locals is None or not isinstance(g.locals, (set, frozenset)):
                loc = assigned_names(g.node)
            else:
                loc = g.locals
            if name in loc:
                return g.qual
            g = g.parent
        return f.mod.name

    def elems(self, f, e):
        return outof(self.tags(f, e))

    def callees(self, f, call):
        """[(function, is its first parameter bound?)]"""
        fn = call.func
        if isinstance(fn, ast.Name):
            t = self.resolve(f, fn.id)
            if t is not None:
                return t
            return []
        if isinstance(fn, ast.Attribute):
            out = [(g, True) for g in self.bymethod.get(fn.attr, ()) if g.cls is not None]
            out += [(g, False) for g in self.bymethod.get(fn.attr, ()) if g.cls is None]
            for q, c in self.classes.items():
                if c.name == fn.attr:
                    out += self.inits(q)
            return out
        return []

    def inits(self, q):
        g = self.funcs.get(q + ".__init__")
        if g is not None:
            return [(g, True)]
        out = []
        for b in self.classes[q].node.bases if q in self.classes else ():
            n = b.attr if isinstance(b, ast.Attribute) else b.id if isinstance(b, ast.Name) else None
            for p, c in self.classes.items():
                if c.name == n and p != q:
                    out += self.inits(p)
        return out

    def resolve(self, f, name):
        g = f
        while g is not None:
            for h in self.funcs.values():
                if h.parent is g and isinstance(h.node, ast.FunctionDef) and h.node.name == name:
                    return [(h, False)]
            g = g.parent
        out = []
        for q, c in self.classes.items():
            if c.name == name:
                out += self.inits(q)
        for h in self.bymethod.get(name, ()):
            if h.cls is None and h.parent is None:
                out.append((h, False))
        if name == "cls" and f is not None and f.cls is not None:
            out += self.inits(f.cls.qual)
        return out

    def pass_args(self, f, call):
        for g, bound in self.callees(f, call):
            a = g.node.args
            names = [x.arg for x in getattr(a, "posonlyargs", []) + a.args]
            if bound and isinstance(call.func, ast.Attribute) and names and not self.static(g):
                self.add(self.var, (g.qual, names[0]), self.tags(f, call.func.value))
            if bound and not self.static(g):
                names = names[1:]
            for i, x in enumerate(call.args):
                if isinstance(x, ast.Starred):
                    for n in names[i:]:
                        self.add(self.var, (g.qual, n), self.tags(f, x.value))
                    break
                t = self.tags(f, x)
                if t:
                    if i < len(names):
                        self.add(self.var, (g.qual, names[i]), t)
                    elif a.vararg:
                        self.add(self.var, (g.qual, a.vararg.arg), t)
            for k in call.keywords:
                t = self.tags(f, k.value)
                if not t:
                    continue
                if k.arg is None:
                    for n in names:
                        self.add(self.var, (g.qual, n), t)
                elif k.arg in names or k.arg in [x.arg for x in a.kwonlyargs]:
                    self.add(self.var, (g.qual, k.arg), t)
                elif a.kwarg:
                    self.add(self.var, (g.qual, a.kwarg.arg), t)

    def static(self, g):
        return any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in getattr(g.node, "decorator_list", ()))

    # -- expressions
    def tags(self, f, e):
        if isinstance(e, ast.Name):
            h = self.home(f, e.id) if f is not None else None
            t = self.var.get((h, e.id), frozenset()) if h else frozenset()
            if f is not None:
                a = f.node.args
                g = f
                while g is not None and g.qual != h:
                    g = g.parent
                if g is not None and e.id in [x.arg for x in g.node.args.args + g.node.args.kwonlyargs]:
                    t = t | frozenset(self.t_param(g, e.id))
            return t | frozenset(self.t_name(f, e.id))
        if isinstance(e, ast.Attribute):
            base = self.tags(f, e.value)
            r = frozenset(self.t_attr(f, e, base))
            if not (isinstance(e.value, ast.Name) and f is None):
                r |= self.field.get(e.attr, frozenset())
            for g in self.bymethod.get(e.attr, ()):
                if g.cls is not None and any(isinstance(d, ast.Name) and d.id == "property" for d in getattr(g.node, "decorator_list", ())):
                    r |= self.ret.get(g.qual, frozenset())
            return r
        if isinstance(e, ast.Call):
            r = frozenset()
            name = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else None
            for g, _ in self.callees(f, e):
                if g.node.name != "__init__" if isinstance(g.node, ast.FunctionDef) else True:
                    r |= self.ret.get(g.qual, frozenset())
            return r | frozenset(self.t_call(f, e, name, e.args))
        if isinstance(e, ast.BoolOp):
            return frozenset().union(*[self.tags(f, x) for x in e.values])
        if isinstance(e, ast.IfExp):
            return self.tags(f, e.body) | self.tags(f, e.orelse)
        if isinstance(e, ast.NamedExpr):
            return self.tags(f, e.value)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return frozenset().union(frozenset(), *[inside(self.tags(f, x)) for x in e.elts])
        if isinstance(e, ast.Dict):
            return frozenset().union(frozenset(), *[inside(self.tags(f, x)) for x in e.values])
        if isinstance(e, ast.Starred):
            return self.tags(f, e.value)
        if isinstance(e, ast.Subscript):
            b = self.tags(f, e.value)
            r = frozenset(t for t in b if t.endswith("*")) if isinstance(e.slice, ast.Slice) else outof(b)
            return r | frozenset(self.t_expr(f, e))
        if isinstance(e, ast.BinOp):
            r = frozenset(t for x in (e.left, e.right) for t in self.tags(f, x) if t.endswith("*"))
            return r | frozenset(self.t_expr(f, e))
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return inside(self.tags(f, e.elt)) | frozenset(self.t_expr(f, e))
        return frozenset(self.t_expr(f, e))

    def t_expr(self, f, e):
        return ()
