"""Loads the non-test sources of /repo/request_parser into syntax trees.

The code base is Python 2.7.  Python 3's `ast` parses the subset the package uses today; a file that
uses Python-2-only syntax (print statements, `except A, e`, backticks ...) is parsed by Jython's own
`ast` module instead and the tree is rebuilt here, so the analysis covers whatever the build covers.
"""
import ast
import json
import os
import subprocess
import sys
import tempfile

PKG = "request_parser"


class AnalysisBroken(Exception):
    """The analysis cannot run (vanished anchor, unparsable file): never a pass, never a violation."""


_JY = r'''
import ast, json, sys
def conv(n):
    if isinstance(n, ast.AST):
        d = {"_": n.__class__.__name__}
        for f in (n._fields or ()):
            d[f] = conv(getattr(n, f, None))
        for a in ("lineno", "col_offset"):
            v = getattr(n, a, None)
            if v is not None: d[a] = v
        return d
    if isinstance(n, (list, tuple)):
        return [conv(x) for x in n]
    if isinstance(n, unicode): return {"$u": n}
    if isinstance(n, str): return {"$s": [ord(c) for c in n]}
    if isinstance(n, bool) or n is None: return n
    if isinstance(n, (int, long)): return {"$i": str(n)}
    if isinstance(n, float): return n
    return {"$o": str(n)}
src = open(sys.argv[1], "rb").read().replace("\r\n", "\n") + "\n"
open(sys.argv[2], "w").write(json.dumps(conv(ast.parse(src))))
'''


def _jython_tree(path):
    d = tempfile.mkdtemp()
    try:
        s, o = os.path.join(d, "d.py"), os.path.join(d, "o.json")
        open(s, "w").write(_JY)
        env = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8")
        env.pop("CLASSPATH", None)
        p = subprocess.run(["/usr/bin/jython", "-B", "-s", "-Dpython.cachedir.skip=true", s, path, o],
                           env=env, capture_output=True, timeout=180)
        if p.returncode != 0 or not os.path.exists(o):
            raise AnalysisBroken("cannot parse %s: %s" % (path, p.stderr.decode("utf8", "replace")[-400:]))
        return _rebuild(json.load(open(o)))
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def _ident(x):
    if isinstance(x, dict):
        if "$s" in x:
            return "".join(map(chr, x["$s"]))
        if "$u" in x:
            return x["$u"]
    return x


def _rebuild(j):
    """Jython 2.7 tree (as JSON) -> Python 3 ast nodes."""
    def R(x):
        if isinstance(x, list):
            return [R(y) for y in x]
        if not isinstance(x, dict):
            return x
        if "_" not in x:
            if "$i" in x:
                return int(x["$i"])
            return _ident(x)
        k = x["_"]
        loc = dict(lineno=x.get("lineno", 1), col_offset=x.get("col_offset", 0),
                   end_lineno=x.get("lineno", 1), end_col_offset=x.get("col_offset", 0))

        def mk(cls, **kw):
            n = cls(**kw)
            for a, v in loc.items():
                setattr(n, a, v)
            return n
        if k == "Module":
            return ast.Module(body=R(x["body"]), type_ignores=[])
        if k == "Num":
            v = x["n"]
            return mk(ast.Constant, value=int(v["$i"]) if isinstance(v, dict) and "$i" in v else v, kind=None)
        if k == "Str":
            v = x["s"]
            if "$u" in v:
                return mk(ast.Constant, value=v["$u"], kind="u")
            return mk(ast.Constant, value="".join(map(chr, v["$s"])), kind=None)
        if k == "Name":
            i = _ident(x["id"])
            if i in ("None", "True", "False"):
                return mk(ast.Constant, value={"None": None, "True": True, "False": False}[i], kind=None)
            return mk(ast.Name, id=i, ctx=R(x["ctx"]))
        if k == "Print":
            f = mk(ast.Name, id="print", ctx=ast.Load())
            return mk(ast.Expr, value=mk(ast.Call, func=f, args=R(x["values"]), keywords=[]))
        if k == "Exec":
            f = mk(ast.Name, id="exec", ctx=ast.Load())
            return mk(ast.Expr, value=mk(ast.Call, func=f, args=[R(x["body"])], keywords=[]))
        if k == "Repr":
            f = mk(ast.Name, id="repr", ctx=ast.Load())
            return mk(ast.Call, func=f, args=[R(x["value"])], keywords=[])
        if k == "Raise":
            t, i = R(x["type"]), R(x["inst"])
            if i is not None:  # raise T, v
                f = mk(ast.Name, id="$raise2", ctx=ast.Load())
                return mk(ast.Raise, exc=mk(ast.Call, func=f, args=[t, i], keywords=[]), cause=None)
            return mk(ast.Raise, exc=t, cause=None)
        if k in ("TryExcept", "TryFinally"):
            if k == "TryFinally":
                return mk(ast.Try, body=R(x["body"]), handlers=[], orelse=[], finalbody=R(x["finalbody"]))
            return mk(ast.Try, body=R(x["body"]), handlers=R(x["handlers"]), orelse=R(x["orelse"]), finalbody=[])
        if k == "ExceptHandler":
            nm = R(x["name"])
            if isinstance(nm, ast.AST):
                nm = getattr(nm, "id", None)
            return mk(ast.ExceptHandler, type=R(x["type"]), name=nm, body=R(x["body"]))
        if k == "With":
            return mk(ast.With, items=[ast.withitem(context_expr=R(x["context_expr"]),
                                                    optional_vars=R(x["optional_vars"]))], body=R(x["body"]))
        if k == "Call":
            args = R(x["args"])
            kws = R(x["keywords"])
            if x.get("starargs"):
                args = args + [mk(ast.Starred, value=R(x["starargs"]), ctx=ast.Load())]
            if x.get("kwargs"):
                kws = kws + [ast.keyword(arg=None, value=R(x["kwargs"]))]
            return mk(ast.Call, func=R(x["func"]), args=args, keywords=kws)
        if k == "keyword":
            return ast.keyword(arg=_ident(x["arg"]), value=R(x["value"]))
        if k == "arguments":
            args = []
            for a in R(x["args"]):
                if isinstance(a, ast.Name):
                    args.append(mk(ast.arg, arg=a.id, annotation=None))
                else:
                    args.append(mk(ast.arg, arg="$tuplearg", annotation=None))
            va, ka = _ident(x["vararg"]), _ident(x["kwarg"])
            return ast.arguments(posonlyargs=[], args=args,
                                 vararg=mk(ast.arg, arg=va, annotation=None) if va else None,
                                 kwonlyargs=[], kw_defaults=[],
                                 kwarg=mk(ast.arg, arg=ka, annotation=None) if ka else None,
                                 defaults=R(x["defaults"]))
        if k == "FunctionDef":
            return mk(ast.FunctionDef, name=_ident(x["name"]), args=R(x["args"]), body=R(x["body"]),
                      decorator_list=R(x["decorator_list"]), returns=None, type_params=[])
        if k == "ClassDef":
            return mk(ast.ClassDef, name=_ident(x["name"]), bases=R(x["bases"]), keywords=[], body=R(x["body"]),
                      decorator_list=R(x.get("decorator_list") or []), type_params=[])
        if k == "Index":
            return R(x["value"])
        if k == "Slice":
            return mk(ast.Slice, lower=R(x["lower"]), upper=R(x["upper"]), step=R(x["step"]))
        if k == "comprehension":
            return ast.comprehension(target=R(x["target"]), iter=R(x["iter"]), ifs=R(x["ifs"]), is_async=0)
        if k == "alias":
            return mk(ast.alias, name=_ident(x["name"]), asname=_ident(x["asname"]))
        if k == "ImportFrom":
            return mk(ast.ImportFrom, module=_ident(x["module"]), names=R(x["names"]), level=R(x["level"]) or 0)
        if k == "Attribute":
            return mk(ast.Attribute, value=R(x["value"]), attr=_ident(x["attr"]), ctx=R(x["ctx"]))
        if k == "Global":
            return mk(ast.Global, names=[_ident(n) for n in x["names"]])
        cls = getattr(ast, k, None)
        if cls is None:
            raise AnalysisBroken("unsupported node %s" % k)
        kw = {f: R(v) for f, v in x.items() if f not in ("_", "lineno", "col_offset")}
        return mk(cls, **kw)
    return R(j)


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree


def load(root="/repo"):
    """-> {module name: Module} for every non-test module of the package."""
    mods = {}
    base = os.path.join(root, PKG)
    if not os.path.isdir(base):
        raise AnalysisBroken("no package at %s" % base)
    for d, dirs, files in os.walk(base):
        dirs[:] = sorted(x for x in dirs if x not in ("tests", "file_uploads") and not x.startswith("."))
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            name = rel[:-3].replace(os.sep, ".")
            if name.endswith(".__init__"):
                name = name[:-9]
            src = open(p, "rb").read().replace(b"\r\n", b"\n")
            try:
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    tree = ast.parse(src + b"\n", p)
            except (SyntaxError, ValueError):
                tree = _jython_tree(p)
            mods[name] = Module(name, rel, tree)
    return mods
