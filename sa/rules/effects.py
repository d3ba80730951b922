"""C14: who writes to the settings."""
from harness import *
from flow import Flow, scope

MUTATORS = frozenset("append extend insert remove pop sort reverse update clear setdefault popitem add discard __setitem__ __delitem__ "
                     "__setattr__ __delattr__ __setslice__ __iadd__".split())
SETTINGS = PKG + ".conf.settings"
NAMES = ("settings", "_settings")


def mutable_settings(ck):
    """the names of settings that hold lists, dictionaries or sets; names that hold something else"""
    mut, other = set(), set()
    for q, c in ck.prog.classes.items():
        if not q.startswith(SETTINGS + "."):
            continue
        for n in ast.walk(c.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    name = t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else None
                    if name is None:
                        continue
                    v = n.value
                    call = isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("list", "dict", "set")
                    (mut if call or isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) else other).add(name)
    return mut, other - mut


class Writes(Flow):
    """S: may be a settings object given to the library, C: the class, V: something mutable it holds"""
    def __init__(self, ck):
        self.mut, self.plain = mutable_settings(ck)
        Flow.__init__(self, ck.prog)

    def t_param(self, f, name):
        return ("S",) if name in NAMES and not f.qual.startswith(SETTINGS) else ()

    def t_name(self, f, name):
        return ("C",) if name == "Settings" and (f is None or name not in ()) else ()

    def t_attr(self, f, e, base):
        if e.attr in NAMES and not (f is not None and f.qual.startswith(SETTINGS)):
            return ("S",)
        if base & {"S", "C"}:
            if e.attr == "__class__":
                return ("C",)
            if e.attr == "__dict__":
                return ("V",)
            if e.attr == "Key":
                return ("C",)
            if e.attr in self.mut or e.attr not in self.plain and e.attr not in self.bymethod:
                return ("V",)
        return ()

    def t_call(self, f, e, name, args):
        t = self.tags(f, args[0]) if args else frozenset()
        if name in ("vars",) and t & {"S", "C"}:
            return ("V",)
        if name == "type" and len(args) == 1 and "S" in t:
            return ("C",)
        if name == "getattr" and t & {"S", "C"}:
            return ("V",) if len(args) > 1 and not (isinstance(args[1], ast.Constant) and args[1].value in self.plain) else ()
        if name in ("iter", "reversed", "enumerate", "zip", "filter", "map"):
            return ()
        return ()

    def where(self, f):
        return f.qual[len(PKG) + 1:] if f is not None else "module"


def writes(fl, f, nodes):
    """[(construct, node, message)], number of stores and calls looked at"""
    out, n = [], 0
    for x in nodes:
        targets = []
        if isinstance(x, (ast.Assign, ast.Delete)):
            targets = x.targets
        elif isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For, ast.comprehension)):
            targets = [x.target]
        elif isinstance(x, ast.With):
            targets = [i.optional_vars for i in x.items if i.optional_vars is not None]
        todo = list(targets)
        while todo:
            t = todo.pop()
            if isinstance(t, (ast.Tuple, ast.List)):
                todo += t.elts
            elif isinstance(t, ast.Starred):
                todo.append(t.value)
            elif isinstance(t, ast.Attribute):
                n += 1
                b = fl.tags(f, t.value)
                if b & {"S", "C"}:
                    out.append((t, "assigns to %s" % ast.unparse(t)))
                elif isinstance(x, ast.AugAssign) and "V" in fl.tags(f, t):
                    out.append((t, "changes %s in place, which the settings share" % ast.unparse(t)))
            elif isinstance(t, ast.Subscript):
                n += 1
                if fl.tags(f, t.value) & {"V", "S", "C"}:
                    out.append((t, "assigns to %s" % ast.unparse(t)))
            elif isinstance(t, ast.Name) and isinstance(x, ast.AugAssign):
                n += 1
                if "V" in fl.tags(f, t):
                    out.append((t, "changes %s in place, which the settings share" % t.id))
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and x.attr in MUTATORS:
            n += 1
            b = fl.tags(f, x.value)
            if "V" in b or b & {"S", "C"} and x.attr.startswith("__"):
                out.append((x, "uses %s on something the settings hold" % ast.unparse(x)))
        if isinstance(x, ast.Call):
            name = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else None
            a0 = fl.tags(f, x.args[0]) if x.args else frozenset()
            if name in ("setattr", "delattr"):
                n += 1
                if a0 & {"S", "C"}:
                    out.append((x, "%s on the settings" % name))
            elif isinstance(x.func, ast.Attribute) and name in MUTATORS or name in ("heappush", "heappop", "shuffle", "insort", "setitem", "delitem"):
                n += 1
                if "V" in a0 and (name in ("heappush", "heappop", "shuffle", "insort", "setitem", "delitem") or isinstance(x.func.value, ast.Name) and
                                  x.func.value.id in ("list", "dict", "set", "object")):
                    out.append((x, "%s changes something the settings hold" % ast.unparse(x.func)))
    return out, n


@rule("C14", what="An effect analysis of every function of the package: which expressions may denote a settings object given to the library, "
                  "the settings class or a mutable value it holds (flow-insensitive alias tags, carried through locals, attributes, arguments "
                  "and results), and no assignment, deletion, in-place operator or mutating call on one of these.",
      note="Methods are resolved by name over all classes; a settings object is any parameter or attribute named settings and all that may "
      "alias it. A settings object the library makes itself may be filled in where it is made.")
def c14(ck):
    fl = Writes(ck).run()
    stores = 0
    for q, f in sorted(fl.funcs.items()):
        ck.analysed.add(q)
        bad, n = writes(fl, f, list(scope(f)))
        stores += n
        for k in range(n - len(bad)):
            ck.obl["no write to the settings"] += 1
        for x, msg in bad:
            ck.need("no write to the settings", False, fl.where(f), msg)
    for m in fl.mods.values():
        top = [s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))]
        if m.name == SETTINGS:
            continue
        bad, n = writes(fl, None, [x for s in top for x in ast.walk(s)])
        for x, msg in bad:
            ck.need("no write to the settings", False, m.name[len(PKG) + 1:], msg)
    if not fl.mut:
        pass
    given = sum(1 for t in fl.var.values() if "S" in t) + sum(1 for t in fl.field.values() if "S" in t)
    ck.obl["things that may denote the settings"] += given
    ck.minimum("no write to the settings", 100)
    ck.minimum("things that may denote the settings", 3)
