"""C19: which texts reach the file system as a path."""
import relang
from harness import *
from flow import Flow, scope
from .request import conf
from .files import UF, file_object, mro, subclasses
from .safetext import alphabet, ANY

DIR = "FILE_UPLOAD_TEMP_DIR"
PATHS = {n: (0,) for n in """open file io.open io.FileIO codecs.open os.open os.mkdir os.makedirs os.remove os.unlink os.rmdir os.removedirs os.chmod
os.chown os.utime os.truncate os.mkfifo os.mknod os.listdir os.walk os.stat os.lstat os.access os.readlink os.path.exists os.path.lexists
os.path.isfile os.path.isdir os.path.islink os.path.getsize os.path.getmtime os.path.getatime os.path.getctime os.path.realpath shutil.rmtree
glob.glob zipfile.ZipFile tarfile.open linecache.getlines execfile os.chdir""".split()}
PATHS.update({n: (0, 1) for n in """os.rename os.renames os.link os.symlink shutil.move shutil.copy shutil.copy2 shutil.copyfile shutil.copytree
os.path.samefile""".split()})
TEMP = {"tempfile.NamedTemporaryFile": ("mode", "bufsize", "suffix", "prefix", "dir"), "tempfile.TemporaryFile": ("mode", "bufsize", "suffix", "prefix", "dir"),
        "tempfile.SpooledTemporaryFile": ("max_size", "mode", "bufsize", "suffix", "prefix", "dir"), "tempfile.mkstemp": ("suffix", "prefix", "dir"),
        "tempfile.mkdtemp": ("suffix", "prefix", "dir"), "tempfile.mktemp": ("suffix", "prefix", "dir")}


def leaves(t, seen=None):
    """the symbols a term is made of, through the results of calls that are not followed"""
    seen = set() if seen is None else seen
    out = set()
    for x in subterms(t):
        if x.k != "sym" or x in seen:
            continue
        seen.add(x)
        out.add(x)
        for y in x.a[3] if len(x.a) > 3 and isinstance(x.a[3], tuple) else ():
            if isinstance(y, Term):
                out |= leaves(y, seen)
    return out


def client(t):
    return sorted({x.a[1] for x in leaves(t) if "client" in x.a[3]})


def chars(e, st, t):
    """the characters of a text, patterns it is known to match taken into account"""
    if t.k == "app" and t.a[0] == "cat":
        xs = [chars(e, st, x) for x in t.a[1:]]
        return None if None in xs else frozenset().union(*xs)
    for f in list(st.facts):
        for m in subterms(f):
            if m.k == "app" and m.a[0] == "match" and m.a[2] is t and m.a[3] in ("match", "fullmatch") and e.decide(st, m) is True:
                r = m.a[1]
                if r.a[1].k == "c" and e.reflags(r.a[2]) is not None:
                    cs = relang.characters(r.a[1].a[1], e.reflags(r.a[2]), m.a[3] == "fullmatch")
                    if cs is not None:
                        return cs
    if t.k == "app" and t.a[0] in ("ext", "root", "basename") and not (t.a[0] == "root"):
        a = alphabet(st, t)
        return None if a is None else a - frozenset("/")
    return alphabet(st, t)


class Disk(Rule):
    """looks at what is handed to the file system"""
    def __init__(self, ck):
        self.ck, self.sites, self.what = ck, set(), ""
        self.dirs = ()

    def call(self, eng, st, fn, args, kw, node):
        if fn.k != "ext":
            return None
        name = {"__builtin__.open": "open", "file": "open"}.get(fn.a[0], fn.a[0])
        if name in PATHS:
            self.sites.add(id(node))
            for i in PATHS[name]:
                v = args[i] if i < len(args) else None
                if v is None:
                    continue
                c = client(v)
                self.ck.need("no client text in a path", not c, self.where(eng), "%s: %s is given %s, which holds the client's %s" % (
                    self.what, name, show(v), ", ".join(c)), st)
        elif name in TEMP:
            self.sites.add(id(node))
            a = dict(zip(TEMP[name], args))
            a.update({k: v for k, v in kw.items() if isinstance(k, str)})
            d = a.get("dir", NONE)
            ok = d is not NONE and not client(d) and (not self.dirs or any(eng.norm_eq(st, d, x) for x in self.dirs))
            self.ck.need("the upload directory", ok, self.where(eng), "%s: %s creates a file in %s" % (self.what, name, show(d)), st)
            for k in ("suffix", "prefix"):
                v = a.get(k)
                if v is None or not client(v):
                    continue
                cs = chars(eng, st, v)
                bad = sorted(frozenset("/\\\0\x80") & (ANY if cs is None else cs))
                self.ck.need("no client text in a path", not bad, self.where(eng), "%s: the %s %s given to %s may hold %s" % (
                    self.what, k, show(v), name, ", ".join("a character that is not ASCII" if b == "\x80" else repr(b) for b in bad)), st)
        return None

    def where(self, eng):
        f = eng.cx.fn if eng.cx is not None and getattr(eng.cx, "fn", None) is not None else None
        q = getattr(f, "qual", None)
        return q[len(PKG) + 1:] if isinstance(q, str) else self.what


CTORS = {"TemporaryUploadedFile": ["K(n, t, z, ch, c)", "K(n, t, z, ch, settings=c, content_type_extra=x, transfer_encoding=te)", "K(n, t, z, ch)"],
         "InMemoryUploadedFile": ["K(f, fn, n, t, z, ch)"], "SimpleUploadedFile": ["K(n, b, t)"], "UploadedFile": ["K(f, n, t, z, ch)", "K(g, n, t)"]}
SPECIAL = ("__len__", "__iter__", "__enter__", "__exit__", "__repr__", "__str__", "__nonzero__", "__bool__", "__del__")


def names(ty="unicode"):
    P = ("client",)
    return {"n": S("file name", ty, P), "t": S("content type", "str", P), "ch": S("charset", "str", P), "x": S("content type parameters", None, P),
            "te": S("transfer encoding", "str", P), "fn": S("field name", ty, P), "b": S("content", "str", P), "z": S("size", "int"), "k": S("argument")}


def public(ck, q):
    """[(name, required arguments or None for an attribute)] of a class, inherited ones included"""
    seen, out = set(), []
    for k in mro(ck.engine(), q):
        c = ck.prog.classes.get(k)
        if c is None:
            continue
        for n, t in sorted(c.ns.items()):
            if n in seen or n.startswith("_") and n not in SPECIAL or not isinstance(t, Term):
                continue
            seen.add(n)
            if t.k == "prop":
                out.append((n, None))
            elif t.k == "func":
                a = ck.prog.funcs[t.a[0]].node.args
                out.append((n, len(a.args) - 1 - len(a.defaults)))
    return out


def kinds(ck):
    return {c.rsplit(".", 1)[1]: c for c in [ck.cls(UF + "UploadedFile")] + subclasses(ck, UF + "UploadedFile")}


def operations(ck, job):
    """every public operation of an uploaded file, fresh and closed"""
    kind, q, src, ty = job
    d = Disk(ck)
    e = ck.engine(d, keep=True)
    e.cap = 2000
    st = e.start()
    c = conf(ck, e, st)
    env = dict(names(ty), K=T("cls", q), c=c, f=file_object(st), g=file_object(st, name=S("name of the file", "str")))
    if "c)" in src or "=c" in src:
        d.dirs = [v for _, v in ck.ev(e, st, "c." + DIR, {"c": c})]
    d.what = src.replace("K", kind, 1)
    made = [p for p in ck.script(e, st, "result = " + src, env) if p.kind == "ret"]
    if not made:
        ck.incomplete.append("%s is never made" % d.what)
    for p in made:
        env["u"] = p.v
        for n, req in public(ck, q):
            for pre in ("", "u.close()\n", "u.name = n\n"):
                if pre == "u.name = n\n" and n == "name":
                    continue
                call = "u." + n if req is None else "u.%s(%s)" % (n, ", ".join(["k"] * max(req, 0)))
                if n in ("__iter__", "chunks"):
                    call = "list(%s)" % call
                d.what = "%s%s.%s" % (src.replace("K", kind, 1), ".close(), then" if pre.startswith("u.close") else "", n)
                e.steps = 0
                try:
                    n0 = len(list(ck.script(e, p.st, pre + "result = " + call, env)))
                except engmod.Budget as b:
                    ck.incomplete.append("%s: %s" % (d.what, b))
                    continue
                ck.obl["public operations of uploaded files"] += 1


def handling(ck, job):
    """a handler at work"""
    q, ty = job
    kind = q.rsplit(".", 1)[1]
    d = Disk(ck)
    e = ck.engine(d, keep=True)
    e.cap = 2000
    st = e.start()
    c = conf(ck, e, st)
    d.dirs = [v for _, v in ck.ev(e, st, "c." + DIR, {"c": c})]
    d.what = kind
    env = dict(names(ty), H=T("cls", q), c=c, I=S("input"), M=S("headers", None, ("client",)), cl=S("content_length", "int"), bd=S("boundary", "str", ("client",)),
               enc=S("encoding", "str", ("charset", "client")), Stop=T("cls", ck.cls("files.uploadhandler.StopFutureHandlers")),
               d1=S("data", "str", ("client",)), d2=S("more data", "str", ("client",)), r=S("request"))
    src = """h = H(r)
h.handle_raw_input(I, M, cl, bd, c, enc)
try:
    h.new_file(fn, n, t, z, ch, x, te)
except Stop:
    pass
h.receive_data_chunk(d1, 0)
h.receive_data_chunk(d2, 1)
u = h.file_complete(z)
h.upload_complete()
result = u"""
    k = 0
    for p in ck.script(e, st, src, env):
        k += p.kind == "ret"
    ck.obl["handlers at work"] += 1
    if not k and kind != "FileUploadHandler":
        ck.incomplete.append("%s never completes a file" % kind)


class Trust(Flow):
    """U: may come from the client"""
    SAFE = frozenset([DIR, "__file__", "f_code", "co_filename"])
    MADE = frozenset("NamedTemporaryFile TemporaryFile mkstemp mkdtemp gettempdir getcwd getpid uuid4 uuid1 time urandom getfile currentframe default".split())

    def inner(self, f):
        return f is not None and any(f.qual.startswith(PKG + p) for p in (".http.", ".utils.")) and ".module_loading" not in f.qual

    def t_param(self, f, name):
        return ("U",) if self.inner(f) and name not in ("self", "cls", "settings", "_settings") else ()

    def t_attr(self, f, e, base):
        if e.attr in self.SAFE or isinstance(e.value, ast.Name) and self.extmod(f, e.value.id):
            return ()
        if "U" in base:
            return ("U",)
        return ("U",) if self.inner(f) and isinstance(e.value, ast.Name) and e.value.id == "self" else ()

    def extmod(self, f, name):
        t = self.mods[f.mod.name].ns.get(name) if f is not None and f.mod.name in self.mods else None
        return isinstance(t, Term) and t.k in ("ext", "mod")

    def t_call(self, f, e, name, args):
        if name in self.MADE:
            return ()
        xs = [self.tags(f, x) for x in args] + [self.tags(f, k.value) for k in e.keywords]
        if isinstance(e.func, ast.Attribute):
            xs.append(self.tags(f, e.func.value))
        return ("U",) if any("U" in x or "U*" in x for x in xs) else ()

    def t_expr(self, f, e):
        return ("U",) if any("U" in self.tags(f, x) or "U*" in self.tags(f, x) for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)) else ()


def extname(fl, f, fn):
    """the dotted name of an external function, as imported"""
    if isinstance(fn, ast.Name):
        t = fl.mods[f.mod.name].ns.get(fn.id)
        for n in ast.walk(f.node) if t is None else ():
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    if (a.asname or a.name.split(".")[0]) == fn.id:
                        t = T("ext", (n.module + "." + a.name) if isinstance(n, ast.ImportFrom) and n.module else a.name if a.asname else fn.id)
        if isinstance(t, Term) and t.k == "ext":
            return t.a[0]
        return fn.id if t is None and fn.id in ("open", "file", "execfile") else None
    if isinstance(fn, ast.Attribute):
        b = extname(fl, f, fn.value)
        return None if b is None else b + "." + fn.attr
    return None


def elsewhere(ck):
    """file system calls outside the classes of the files package"""
    fl = Trust(ck.prog).run()
    n = 0
    for q, f in sorted(fl.funcs.items()):
        if q.startswith(PKG + ".files.") and f.cls is not None or q.startswith(PKG + ".conf.") or ".module_loading" in q:
            continue
        ck.analysed.add(q)
        for x in scope(f):
            if not isinstance(x, ast.Call):
                continue
            n += 1
            name = extname(fl, f, x.func)
            if name is None or name not in PATHS and name not in TEMP:
                continue
            args = [x.args[i] for i in PATHS[name] if i < len(x.args)] if name in PATHS else x.args + [k.value for k in x.keywords]
            for a in args:
                ck.need("no client text in a path", not fl.tags(f, a) & {"U", "U*"}, q[len(PKG) + 1:], "%s is given %s, which may come from the client" % (
                    name, ast.unparse(a)))
            if name in TEMP:
                d = [k.value for k in x.keywords if k.arg == "dir"] + [v for k, v in zip(TEMP[name], x.args) if k == "dir"]
                ck.need("the upload directory", bool(d) and not (isinstance(d[0], ast.Constant) and d[0].value is None), q[len(PKG) + 1:],
                        "%s is not told the upload directory" % name)
    ck.obl["call sites looked at"] += n
    if not n:
        ck.incomplete.append("no call site")


@rule("C19", what="Every path through every public operation of every kind of uploaded file (new, and closed) and through every upload handler, with "
                  "symbols for what the client sends: at each file system call, no path holds such a symbol, temporary files are made in the settings' "
                  "directory, and a name part made from client text has no separator (alphabet of the pattern it is known to match); the call sites "
                  "of the rest of the package by tags of what may come from the client.",
      note="The settings' own permission check uses the configured directory only and is not client data. Paths a developer gives to File() himself "
      "are not covered.",
      assumes=["tempfile makes names that stay in the directory given, when suffix and prefix have no separator"])
def c19(ck):
    jobs = []
    for kind, q in sorted(kinds(ck).items()):
        for src in CTORS.get(kind, []):
            for ty in ("unicode", "str"):
                jobs.append((kind, q, src, ty))
    ck.spread(jobs, lambda j: operations(ck, j))
    hs = [(q, ty) for q in subclasses(ck, "files.uploadhandler.FileUploadHandler") for ty in ("unicode", "str")]
    ck.spread(hs, lambda j: handling(ck, j))
    elsewhere(ck)
    ck.minimum("the upload directory", 2)
    ck.minimum("public operations of uploaded files", 40)
