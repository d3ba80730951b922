"""C29, C30: the settings object."""
import posixpath
from harness import *

KEYS = [("MAX_HEADER_SIZE", "MAX_HEADER_SIZE", 16), ("FILE_UPLOAD_MAX_MEMORY", "FILE_UPLOAD_MAX_MEMORY_SIZE", 31457280),
        ("DATA_UPLOAD_MAX_MEMORY", "DATA_UPLOAD_MAX_MEMORY_SIZE", 5242880), ("DATA_UPLOAD_MAX_FIELDS", "DATA_UPLOAD_MAX_NUMBER_FIELDS", 4096),
        ("DEFAULT_CHARSET", "DEFAULT_CHARSET", "ISO-8859-1")]
DIRKEY, DIRATTR = "FILE_UPLOAD_TEMP_DIR", "FILE_UPLOAD_TEMP_DIR"


def patheval(t, env):
    """the path a term stands for, when its leaves are source files, constants and the given symbols"""
    if t in env:
        return env[t]
    if t.k == "c" and isinstance(t.a[1], str):
        return t.a[1]
    if t.k != "app":
        return None
    if t.a[0] == "typed":
        return patheval(t.a[1], env)
    if t.a[0] == "srcfile":
        x = t.a[1]
        return posixpath.join("/INSTALLED", x.a[1] if isinstance(x, Term) else x)
    if t.a[0] == "pathjoin":
        xs = [patheval(x, env) for x in t.a[1:]]
        return None if None in xs else posixpath.join(*xs)
    if t.a[0] == "cat":
        xs = [patheval(x, env) for x in t.a[1:]]
        return None if None in xs else "".join(xs)
    if t.a[0] == "x" and len(t.a) == 3:
        x = patheval(t.a[2], env)
        f = {"os.path.normpath": posixpath.normpath, "os.path.dirname": posixpath.dirname, "os.path.abspath": posixpath.normpath,
             "os.path.basename": posixpath.basename, "os.path.realpath": posixpath.normpath}.get(t.a[1])
        if x is None or f is None or t.a[1] in ("os.path.abspath", "os.path.realpath") and not x.startswith("/"):
            return None
        return f(x)
    return None


def build(ck, e, entries, base=None, extra=""):
    st = e.start()
    D = st.new(Obj("dict", ent=entries, base=base), "conf")
    return ck.script(e, st, "C(D%s)" % extra, {"C": T("cls", ck.cls("conf.settings.Settings")), "D": D})


def read_settings(ck):
    """the upper-case attributes read from something called settings, anywhere in the package: {name: where}"""
    out = {}
    for m in ck.prog.mods.values():
        if not m.name.startswith(PKG) or ".tests" in m.name:
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and n.attr.isupper() and isinstance(n.ctx, ast.Load):
                v = n.value
                last = v.id if isinstance(v, ast.Name) else v.attr if isinstance(v, ast.Attribute) else ""
                if last.endswith("settings") and not last.endswith("default_settings"):
                    out.setdefault(n.attr, "%s:%d" % (m.name, n.lineno))
    return out


@rule("C29", what="Every path of Settings(dict), for every subset of the keys and any values, and of Settings.default(): each setting is the "
                  "value of its own key when that is present and the documented default otherwise; every setting read anywhere is defined.",
      assumes=["settings are read through an expression whose last name ends in 'settings'"])
def c29(ck):
    need = read_settings(ck)
    q = ck.cls("conf.settings.Settings")
    for src in ("C.default()", "C.default(True)", "C({})", "C({}, True)"):
        e = ck.engine(keep=True)
        for p in ck.script(e, e.start(), src, {"C": T("cls", q)}):
            if p.kind == "exc":
                ck.need("default", excname(p.exc).endswith("InvalidDirectory"), src, "raises %s" % p.exc, p.st)
                continue
            for key, attr, dflt in KEYS:
                for s, v in e.getattr(p.st.fork(), p.v, attr, None):
                    ck.need("default", v is const(dflt), src.split("(")[0] + " " + attr, "the default %s is %s instead of %r"
                            % (attr, show(v), dflt), p.st)
            defined(ck, e, p, need, "Settings." + src)
    e = ck.engine(keep=True)
    base = S("conf")
    ps = build(ck, e, {const(DIRKEY): ABSENT}, base)
    e2 = ck.engine(keep=True)
    d = S("dir", "str")
    ps += build(ck, e2, {const(k): S(k) for k, _, _ in KEYS} | {const(DIRKEY): d})
    vals = {}
    for p in ps:
        if p.kind == "exc":
            ck.need("key", excname(p.exc).endswith("InvalidDirectory"), "Settings", "raises %s" % p.exc, p.st)
            continue
        conf = p.eng
        for key, attr, dflt in KEYS:
            n = len(conf.exc)
            outs = conf.getattr(p.st.fork(), p.v, attr, None)
            ck.need("key", outs and len(conf.exc) == n, attr, "the setting %s is not defined" % attr, p.st)
            del conf.exc[n:]
            for s, v in outs:
                if conf is e:
                    has = s.facts.get(app("has", base, const(key)))
                    want = app("item", base, const(key))
                    ok = v is want if has is True else v is const(dflt) if has is False else False
                    if not ok and has is None:
                        # the path did not ask: both cases
                        ok = False
                    ck.need("key", ok, attr, "%s becomes %s when the key %s is %s" % (
                        attr, show(v), key, {True: "present", False: "absent", None: "present or absent"}[has]), p.st)
                else:
                    ok = v.k == "sym" and v.a[1] == key
                    ck.need("key", ok, attr, "%s becomes %s although the key %s is given" % (attr, show(v), key), p.st)
        for s, v in conf.getattr(p.st.fork(), p.v, DIRATTR, None):
            uses = d in set(subterms(v)) or v is d
            ck.need("key", uses == (conf is e2), DIRATTR, "the directory is %s although the key is %s" % (
                show(v), "given" if conf is e2 else "absent"), p.st)
            if conf is e:
                got = patheval(v, {})
                ck.need("default", got == "/INSTALLED/request_parser/files/file_uploads", DIRATTR,
                        "the default upload directory is %s" % (got or show(v)), p.st)
        defined(ck, conf, p, need, "Settings(dict)")
    ck.minimum("key", 60)
    ck.minimum("defined", 8)


def defined(ck, e, p, need, c):
    for a, where in need.items():
        n = len(e.exc)
        ok = bool(e.getattr(p.st.fork(), p.v, a, None)) and len(e.exc) == n
        del e.exc[n:]
        ck.need("defined", ok, "%s %s" % (c, a), "the setting %s, read in %s, is not defined" % (a, where), p.st)


class Files(Rule):
    """file system events of a path"""
    def call(self, eng, st, fn, args, kw, node):
        if fn.k == "ext" and fn.a[0] in ("open", "file", "os.mkdir", "os.makedirs", "os.remove", "os.unlink", "os.rmdir", "os.rename", "os.path.isdir",
                                         "os.path.exists", "os.path.isfile", "os.open", "io.open", "os.access"):
            st.ghost["fs"] = st.ghost.get("fs", ()) + ((fn.a[0], tuple(args)),)
        elif fn.k not in ("func", "cls", "clo", "ext"):
            t = method_of(fn)
            if t is not None and t[1] in ("write", "close", "writelines", "flush"):
                o = st.get(t[0])
                if o is not None and o.cls is T("ext", "file"):
                    st.ghost["fs"] = st.ghost.get("fs", ()) + ((t[1], (o.attrs.get("name", NONE),)),)
        return None


def method_of(fn):
    """(receiver, name) of a bound method term"""
    if fn.k == "bext":
        return fn.a[0], fn.a[1]
    if fn.k == "app" and fn.a[0] == "attr":
        return fn.a[1], fn.a[2]
    if fn.k == "bound":
        f = fn.a[0]
        return fn.a[1], (f.a[0].split(".")[-1] if f.k in ("func",) and isinstance(f.a[0], str) else "?")
    return None


@rule("C30", what="Every path of building a settings object with a directory: the only exception is InvalidDirectory; on success the "
                  "directory was probed (made if missing; a file created, written, closed and removed in it), and it is the given "
                  "directory if that is absolute and existing, else the one below the package.",
      assumes=["a file operation either succeeds or raises IOError or OSError"])
def c30(ck):
    for extra in ("", ", True", ", check_presence=False"):
        e = ck.engine(Files(), keep=True)
        e.cap = 20000
        d = S("dir", "str")
        for p in build(ck, e, {const(DIRKEY): d}, None, extra):
            probe(ck, e, p, d, "Settings(dict)")
    for src in ("C.default(True)", "C.default(check_presence=True)", "C({}, True)"):
        e = ck.engine(Files(), keep=True)
        for p in ck.script(e, e.start(), src, {"C": T("cls", ck.cls("conf.settings.Settings"))}):
            probe(ck, e, p, None, "Settings.default")
    ck.minimum("only-invalid-directory", 6)
    ck.minimum("probed", 6)


def probe(ck, e, p, d, c):
    if p.kind == "exc":
        ck.need("only-invalid-directory", excname(p.exc).endswith(".InvalidDirectory"), c, "raises %s" % p.exc, p.st)
        return
    ev = p.st.ghost.get("fs", ())
    for s, v in e.getattr(p.st.fork(), p.v, DIRATTR, None):
        env = {d: "given/sub"} if d is not None else {}
        norm = app("typed", app("x", "os.path.normpath", d), "text") if d is not None else None
        plain = patheval(v, {d: "given/sub"}) == "given/sub" if d is not None else False
        if plain:
            # taken as given: it must be absolute and exist
            ok = any(val is True and absolute(a, d) for a, val in s.facts.items()) and any(
                val is True and isdir_of(a, d) for a, val in s.facts.items())
            ck.need("directory", ok, c, "the directory is used as given without being absolute and existing", p.st)
        else:
            got = patheval(v, env)
            want = "/INSTALLED/request_parser/" + ("given/sub" if d is not None else "files/file_uploads")
            ck.need("directory", got == want, c, "the directory is %s instead of %s" % (got or show(v), want), p.st)
            if d is not None:
                ok = any(val is False and (absolute(a, d) or isdir_of(a, d)) for a, val in s.facts.items())
                ck.need("directory", ok, c, "an existing absolute directory is replaced by one below the package", p.st)
        here = patheval(v, env)
        made = [a[0] for n, a in ev if n in ("open", "file", "io.open")
                and here is not None and (patheval(a[0], env) or "").startswith(here + "/")]
        ck.need("probed", bool(made), c, "the directory is accepted without creating a file in it", p.st)
        if made:
            f = made[-1]
            names = [n for n, a in ev if a and (a[0] is f)]
            ck.need("probed", "write" in names or "writelines" in names, c, "the directory is accepted without writing a file in it", p.st)
            ck.need("removed", "os.remove" in names or "os.unlink" in names, c, "the probe file is not removed", p.st)
        ck.need("probed", any(isdir_fact(a, here, env) is True and val is True for a, val in s.facts.items())
                or any(n in ("os.mkdir", "os.makedirs") and patheval(a[0], env) == here for n, a in ev), c,
                "a missing directory is not created", p.st)


def unwrap(a):
    while a.k == "app" and a.a[0] in ("truth", "typed"):
        a = a.a[1]
    return a


def absolute(a, d):
    a = unwrap(a)
    return a.k == "app" and a.a[0] == "x" and a.a[1] == "os.path.isabs" and patheval(a.a[2], {d: "given/sub"}) == "given/sub"


def isdir_of(a, d):
    a = unwrap(a)
    p = a.a[3] if a.k == "sym" and len(a.a) > 3 else ()
    return len(p) > 2 and p[0] == "pure" and p[1] in ("os.path.isdir", "os.path.exists") and patheval(p[2], {d: "given/sub"}) == "given/sub"


def isdir_fact(a, here, env):
    a = unwrap(a)
    p = a.a[3] if a.k == "sym" and len(a.a) > 3 else ()
    return len(p) > 2 and p[0] == "pure" and p[1] in ("os.path.isdir", "os.path.exists") and patheval(p[2], env) == here
