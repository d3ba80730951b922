"""The resolved program: modules, classes, functions, module-level values."""
import ast
from terms import T, Term, const, NONE
import loader
from loader import AnalysisBroken

PY2_EXC = {  # builtin exception -> base (Python 2.7)
    "Exception": "BaseException", "BaseException": "object", "StandardError": "Exception", "StopIteration": "Exception",
    "GeneratorExit": "BaseException", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
    "ArithmeticError": "StandardError", "OverflowError": "ArithmeticError", "ZeroDivisionError": "ArithmeticError",
    "AssertionError": "StandardError", "AttributeError": "StandardError", "EnvironmentError": "StandardError",
    "IOError": "EnvironmentError", "OSError": "EnvironmentError", "EOFError": "StandardError", "ImportError": "StandardError",
    "LookupError": "StandardError", "IndexError": "LookupError", "KeyError": "LookupError", "MemoryError": "StandardError",
    "NameError": "StandardError", "UnboundLocalError": "NameError", "RuntimeError": "StandardError",
    "NotImplementedError": "RuntimeError", "TypeError": "StandardError", "ValueError": "StandardError",
    "UnicodeError": "ValueError", "UnicodeDecodeError": "UnicodeError", "UnicodeEncodeError": "UnicodeError",
    "UnicodeTranslateError": "UnicodeError", "Warning": "Exception", "UserWarning": "Warning", "DeprecationWarning": "Warning",
    "SystemError": "StandardError", "ReferenceError": "StandardError", "SyntaxError": "StandardError",
    "binascii.Error": "Exception", "io.UnsupportedOperation": "IOError", "socket.error": "IOError",
}
EXC_ALIAS = {"exceptions.IOError": "IOError", "os.error": "OSError", "select.error": "Exception"}
BUILTINS = set("""abs all any bool bytes basestring bytearray callable chr classmethod cmp dict dir divmod enumerate file filter
float frozenset getattr globals hasattr hash hex id int isinstance issubclass iter len list locals long map max min next object oct
open ord pow print property range raw_input reduce repr reversed round set setattr slice sorted staticmethod str sum super tuple
type unichr unicode vars xrange zip __import__ delattr buffer input execfile reload apply coerce intern eval format memoryview
None True False NotImplemented Ellipsis __name__ __file__ __debug__ __doc__ compile exit quit copyright""".split()) | {
    k for k in PY2_EXC if "." not in k}


class FuncInfo:
    def __init__(self, qual, node, mod, cls=None, parent=None):
        self.qual, self.node, self.mod, self.cls, self.parent = qual, node, mod, cls, parent
        self.is_gen = has_yield(node)
        self.children = {}
        self.locals = None
        self.live = None
        self.used_by_inner = None


class ClassInfo:
    def __init__(self, qual, node, mod):
        self.qual, self.node, self.mod = qual, node, mod
        self.bases = []   # terms
        self.ns = {}      # name -> Term
        self.name = node.name
        self._mro = None


class ModInfo:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.ns = {}


def has_yield(node):
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def assigned_names(node):
    """local names of a function body (not descending into nested scopes)"""
    out, glob = set(), set()
    body = node.body if isinstance(node.body, list) else [node.body]
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            todo.extend(n.decorator_list)
            continue
        elif isinstance(n, (ast.Lambda, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            continue
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        todo.extend(ast.iter_child_nodes(n))
    a = node.args
    for x in a.args + getattr(a, "posonlyargs", []) + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    return out - glob


class Program:
    """All modules, resolved.  Everything is keyed by qualified name, never by position."""

    def __init__(self, root="/repo"):
        self.mods, self.funcs, self.classes = {}, {}, {}
        self.pending = []
        srcs = loader.load(root)
        self.nloc = 0
        for name, m in srcs.items():
            self.mods[name] = ModInfo(name, m.path, m.tree)
        for m in self.mods.values():
            self._scan(m)

    # ------------------------------------------------------------------ scanning
    def _scan(self, m):
        self._block(m.tree.body, m, None, m.ns, m.name)

    def _block(self, body, m, cls, ns, prefix):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self._func(s, m, cls, ns, prefix)
            elif isinstance(s, ast.ClassDef):
                q = prefix + "." + s.name
                c = ClassInfo(q, s, m)
                self.classes[q] = c
                ns[s.name] = T("cls", q)
                self._block(s.body, m, c, c.ns, q)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        ns[a.asname] = self._modref(a.name)
                    else:
                        top = a.name.split(".")[0]
                        ns[top] = self._modref(top)
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    pk = m.name.split(".")[:-s.level] if not m.path.endswith("__init__.py") else m.name.split(".")[:len(m.name.split(".")) - s.level + 1]
                    base = ".".join(pk + ([s.module] if s.module else []))
                for a in s.names:
                    ns[a.asname or a.name] = ("from", base, a.name, m)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        ns[t.id] = ("expr", s.value, m, cls)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                ns[e.id] = ("item", s.value, i, m, cls)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                ns[s.target.id] = ("expr", s.value, m, cls)
            elif isinstance(s, ast.If):
                # platform switches: os.name is 'java' under Jython, never 'nt'
                v = _static_cond(s.test)
                if v is not True:
                    self._block(s.orelse, m, cls, ns, prefix)
                if v is not False:
                    sub = dict(ns)
                    self._block(s.body, m, cls, sub, prefix)
                    if v is True:
                        ns.update(sub)
                    else:
                        for k, x in sub.items():
                            ns.setdefault(k, x)
                elif v is False:
                    pass
            elif isinstance(s, ast.Try):
                self._block(s.body, m, cls, ns, prefix)
                sub = {}
                for h in s.handlers:
                    self._block(h.body, m, cls, sub, prefix)
                for k, x in sub.items():
                    ns.setdefault(k, x)
                self._block(s.orelse, m, cls, ns, prefix)
                self._block(s.finalbody, m, cls, ns, prefix)
            elif isinstance(s, ast.With):
                self._block(s.body, m, cls, ns, prefix)
            elif isinstance(s, ast.For):
                pass
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in ns:
                old = ns[s.target.id]
                ns[s.target.id] = ("aug", old, s, m, cls)
            elif isinstance(s, ast.Delete):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        ns.pop(t.id, None)

    def _func(self, s, m, cls, ns, prefix):
        q = prefix + "." + s.name
        old = ns.get(s.name)
        if q in self.funcs:
            q = q + "@%d" % sum(1 for k in self.funcs if k.split("@")[0] == q)
        fi = FuncInfo(q, s, m, cls)
        self.funcs[q] = fi
        self._nested(fi)
        f = T("func", q)
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Name) and d.id == "property":
                f = T("prop", f, NONE, NONE)
            elif isinstance(d, ast.Name) and d.id == "classmethod":
                f = T("cm", f)
            elif isinstance(d, ast.Name) and d.id == "staticmethod":
                f = T("sm", f)
            elif isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter") and isinstance(d.value, ast.Name):
                p = ns.get(d.value.id)
                if isinstance(p, Term) and p.k == "prop":
                    a = list(p.a)
                    a[{"getter": 0, "setter": 1, "deleter": 2}[d.attr]] = f
                    f = T("prop", *a)
            else:
                f = ("deco", d, f, m, cls)
        ns[s.name] = f

    def _nested(self, fi):
        """register nested functions/lambdas/classes of a function"""
        cnt = {}

        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                    nm = c.name if isinstance(c, ast.FunctionDef) else "<lambda>"
                    cnt[nm] = cnt.get(nm, 0) + 1
                    q = fi.qual + "." + nm + ("" if cnt[nm] == 1 else "@%d" % cnt[nm])
                    sub = FuncInfo(q, c, fi.mod, fi.cls, fi)
                    self.funcs[q] = sub
                    fi.children[id(c)] = sub
                    self._nested(sub)
                else:
                    walk(c)
        walk(fi.node)

    def _modref(self, name):
        if name in self.mods:
            return T("mod", name)
        if any(k.startswith(name + ".") for k in self.mods):
            return T("mod", name)
        return T("ext", name)

    def link(self, name, frm):
        """resolve  from base import name  seen in module frm"""
        base = frm[1]
        mod = frm[3]
        cands = [base]
        # Python 2 implicit relative import
        pk = mod.name.rsplit(".", 1)[0] if not mod.path.endswith("__init__.py") else mod.name
        cands.insert(0, pk + "." + base)
        for b in cands:
            if b in self.mods:
                return b
        return None


def _static_cond(e):
    """value of a module-level platform test, when it is decidable for the platform the package runs on"""
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        l, r = e.left, e.comparators[0]
        if isinstance(r, ast.Attribute):
            l, r = r, l
        if isinstance(l, ast.Attribute) and isinstance(l.value, ast.Name) and l.value.id == "os" and l.attr == "name" \
                and isinstance(r, ast.Constant):
            eq = r.value == "java"
            if isinstance(e.ops[0], ast.Eq):
                return eq
            if isinstance(e.ops[0], ast.NotEq):
                return not eq
    if isinstance(e, ast.Constant):
        return bool(e.value)
    return None
