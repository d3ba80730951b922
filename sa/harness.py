"""What a rule is written against: entry points, abstract paths, oracle expressions, findings."""
import ast
import collections
import os
import pickle
import select
import sys
import time
import traceback
import engine as engmod
from engine import Engine, Rule, Budget, Cx, excname
from prog import Program, ModInfo, AnalysisBroken
from terms import T, Term, app, const, NONE, TRUE, FALSE, ZERO, ONE, show, ladd, lscale, lconst, is_const
from state import (State, Obj, ABSENT, typeof, isstr, STRISH, fresh, lin, mkint, lenof, seqlen, mkslice, mkcat, flat, subst,
                   subterms, entails, entails_eq, add_lin, contradictory)

PKG = "request_parser"
ROOT = "/repo"
_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = Program(ROOT)
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec")
        for f in sorted(os.listdir(d)):
            if f.endswith(".py"):
                m = ModInfo("spec." + f[:-3], os.path.join(d, f), ast.parse(open(os.path.join(d, f)).read()))
                _prog.mods[m.name] = m
                _prog._scan(m)
    return _prog


class Path:
    """one abstract path of an entry point: kind 'ret' (value v) or 'exc' (exception v, class name exc)"""
    __slots__ = ("kind", "st", "v", "exc", "eng", "env")

    def __init__(self, kind, st, v, exc, eng):
        self.kind, self.st, self.v, self.exc, self.eng = kind, st, v, exc, eng

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.exc if self.kind == "exc" else show(self.v))


class Check:
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.prog = program()
        self.findings = collections.OrderedDict()
        self.obl = collections.Counter()
        self.bad = collections.Counter()
        self.engines = []
        self.analysed = set()
        self.notes = []
        self.incomplete = []
        self.nsteps = self.ncalls = self.npaths = self.nloops = 0
        self.assumptions = []
        self.t0 = time.time()
        self._lk = Engine(self.prog)

    # -- anchors
    def name(self, dotted):
        """the function or class a public dotted name stands for"""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            m = self.prog.mods.get(".".join(parts[:i]))
            if m is not None:
                v, rest = None, parts[i:]
                if not rest:
                    return T("mod", m.name)
                v = self._lk.glob(m, rest[0])
                for a in rest[1:]:
                    if v is None or v.k != "cls":
                        v = None
                        break
                    r = self._lk.lookup(v.a[0], a)
                    v = r[1] if r is not None else None
                if v is not None and v.k != "missing":
                    return v
        raise AnalysisBroken("anchor %s not found" % dotted)

    def cls(self, dotted):
        v = self.name(PKG + "." + dotted)
        if v.k != "cls":
            raise AnalysisBroken("anchor %s is not a class" % dotted)
        return v.a[0]

    def fn(self, dotted):
        v = self.name(PKG + "." + dotted)
        if v.k in ("cm", "sm"):
            return v.a[0]
        if v.k == "prop":
            return v.a[0]
        if v.k not in ("func", "clo"):
            raise AnalysisBroken("anchor %s is not a function" % dotted)
        return v

    # -- running
    def engine(self, rule=None, keep=False):
        e = Engine(self.prog, rule)
        if keep:
            e.keep_facts = True
            e.cap = max(e.cap * 10, 2000)
        self.engines.append(e)
        return e

    def paths(self, eng, st, f, args, kw=None):
        """all abstract outcomes of a call"""
        n = len(eng.exc)
        outs = eng.call(st, f, tuple(args), dict(kw or {}), None)
        res = [Path("ret", s, v, None, eng) for s, v in outs]
        res += [Path("exc", s, x, eng.excclass(s, x), eng) for s, x in eng.exc[n:]]
        del eng.exc[n:]
        self.npaths += len(res)
        return res

    # -- oracle expressions
    def ev(self, eng, st, src, env):
        """evaluate an expression written in the rule over the terms of a path: [(state, value)]"""
        tree = ast.parse(src.strip(), mode="eval").body
        st = st.fork()
        fid = ("spec", id(tree))
        st.frames[fid] = dict(env)
        old, oldr, oldx = eng.cx, eng.rule, eng.exc
        eng.cx, eng.rule, eng.exc = Cx(None, fid, [], self.prog.mods[PKG] if PKG in self.prog.mods else next(iter(self.prog.mods.values())), None), Rule(), []
        self._keep = getattr(self, "_keep", [])
        self._keep.append(tree)
        try:
            return eng.ev(tree, st)
        finally:
            eng.cx, eng.rule, eng.exc = old, oldr, oldx

    def script(self, eng, st, src, env):
        """all abstract outcomes of an expression of Python that uses the program's objects (in Jython syntax)"""
        try:
            tree, stmts = ast.parse(src.strip(), mode="eval").body, None
        except SyntaxError:
            tree = ast.parse(src.strip())
            stmts = tree.body
        self._keep = getattr(self, "_keep", [])
        self._keep.append(tree)
        st = st.fork()
        fid = ("script", id(tree))
        st.frames[fid] = dict(env)
        old, oldx = eng.cx, eng.exc
        eng.cx, eng.exc = Cx(None, fid, [], next(iter(self.prog.mods.values())), None), []
        try:
            outs = eng.ev(tree, st) if stmts is None else [(s, s.var(fid, "result") or NONE) for s in eng.block(stmts, [st])]
            res = [Path("ret", s, v, None, eng) for s, v in outs]
            res += [Path("exc", s, x, eng.excclass(s, x), eng) for s, x in eng.exc]
        finally:
            eng.cx, eng.exc = old, oldx
        self.npaths += len(res)
        return res

    def split(self, eng, st, src, env):
        A, B = [], []
        for s, v in self.ev(eng, st, src, env):
            a, b = eng.split(s, v)
            A += a
            B += b
        return A, B

    def holds(self, eng, st, src, env):
        """is the oracle expression true in every concretisation of the state?"""
        return not self.split(eng, st, src, env)[1]

    def may(self, eng, st, src, env):
        return bool(self.split(eng, st, src, env)[0])

    def agree(self, eng, st, val, src, env):
        """states in which `val` and the oracle expression differ in truth: [(state, text)]"""
        out = []
        a, b = eng.split(st.fork(), val)
        for s in a:
            for x in self.split(eng, s, src, env)[1]:
                out.append((x, "is true where the specification is false"))
        for s in b:
            for x in self.split(eng, s, src, env)[0]:
                out.append((x, "is false where the specification is true"))
        return out

    # -- reference models: functions in /verif/sa/spec, interpreted abstractly in the final state of a path
    def spec(self, dotted):
        return self.name("spec." + dotted)

    def vocabulary(self, eng, st, spec, args, kw=None):
        """the predicates the reference model branches on: the states of the code are kept apart by them"""
        eng.maps = True
        sub = self.engine(keep=True)
        sub.maps = True
        outs = sub.call(st.fork(), spec, tuple(args), dict(kw or {}), None)
        fv, lv = set(), set()
        for s, _ in outs + sub.exc:
            fv |= set(s.facts)
            for c in s.lin:
                lv |= {a for a, _ in c if a is not None}
        self.engines.remove(sub)
        eng.keep_facts = (fv, lv)
        eng.cap = max(eng.cap, 2000)

    def refine(self, eng, paths, spec, args, clause, construct, eq=None, exc_ok=None, kw=None, pairs=(), post=None):
        """every outcome of the code agrees with every outcome of the reference model that is possible under the
        same facts"""
        for p in paths:
            st = p.st.fork()
            saved, eng.exc, orule, eng.rule = eng.exc, [], eng.rule, Rule()
            ocon, eng.contracts = eng.contracts, {}
            osteps, eng.steps = eng.steps, 0
            try:
                outs = eng.call(st, spec, tuple(args), dict(kw or {}), None)
                want = [("ret", s, v, None) for s, v in outs] + [("exc", s, x, eng.excclass(s, x)) for s, x in eng.exc]
            finally:
                eng.exc, eng.rule, eng.contracts, eng.steps = saved, orule, ocon, osteps
            for k, s, v, x in want:
                msg = None
                if p.kind != k:
                    msg = "%s where the specification says %s" % (outcome(p.kind, p.v, p.exc), outcome(k, v, x))
                elif k == "exc":
                    a, b = excname(p.exc), excname(x)
                    if a != b and not (exc_ok and exc_ok(a, b)) and not eng.subclass(excterm(self, a), excterm(self, b)):
                        msg = "raises %s where the specification says %s" % (a, b)
                else:
                    r = (eq or self.same)(eng, s, p.v, v)
                    if r is not True:
                        msg = "gives %s where the specification says %s" % (vshow(s, p.v), vshow(s, v))
                for a, b in pairs if msg is None else ():
                    if not self.samemap(eng, s, a, b):
                        msg = "leaves the content %s where the specification says %s" % (vshow(s, a), vshow(s, b))
                        break
                if msg is None and post is not None:
                    msg = post(p, s, v)
                self.need(clause, msg is None, construct, msg or "", s)

    def same(self, eng, st, a, b):
        """equal values in every concretisation?"""
        if a is b:
            return True
        oa, ob = st.get(a), st.get(b)
        if a.k == "tup" and b.k == "tup":
            return len(a.a) == len(b.a) and all(self.same(eng, st, x, y) for x, y in zip(a.a, b.a))
        if oa is not None and ob is not None and oa.seq is not None and ob.seq is not None and oa.kind == ob.kind:
            return self.sameseq(eng, st, oa.seq, ob.seq)
        if oa is not None and ob is not None and oa.kind == ob.kind == "dict":
            return self.samemap(eng, st, a, b)
        ta, tb = typeof(st, a), typeof(st, b)
        if (a is NONE) != (b is NONE):
            x = b if a is NONE else a
            return st.facts.get(app("isnone", x)) is True
        if ta == "bool" and tb == "bool":
            for s in eng.split(st.fork(), a)[0]:
                if eng.split(s, b)[1]:
                    return False
            for s in eng.split(st.fork(), a)[1]:
                if eng.split(s, b)[0]:
                    return False
            return True
        if ta == "int" and tb == "int":
            return entails_eq(st, lin(a), lin(b))
        if isstr(st, a) and isstr(st, b) and eng.norm_eq(st, a, b):
            return True
        return eng.decide(st, eng.cmp_eq(st, a, b)) is True

    def samemap(self, eng, st, a, b):
        """the same keys with equal values?"""
        oa, ob = st.get(a), st.get(b)
        if oa.ent is None or ob.ent is None or oa.base is not ob.base:
            return False
        for k in list(dict.fromkeys(list(oa.ent) + list(ob.ent))):
            for s, v in eng.dict_lookup(st.fork(), a, k):
                for s2, w in eng.dict_lookup(s.fork(), b, k):
                    if v is not w and (v is ABSENT or w is ABSENT or not self.same(eng, s2, v, w)):
                        return False
        return True

    def sameseq(self, eng, st, a, b):
        if len(a) != len(b):
            return False
        for (k1, x), (k2, y) in zip(a, b):
            if k1 != k2:
                return False
            if x is y:
                continue
            if k1 == "one":
                if not self.same(eng, st, x, y):
                    return False
                continue
            fx, fy = x.k == "app" and x.a[0] == "fmap", y.k == "app" and y.a[0] == "fmap"
            if not fx and not fy:
                return False
            sx, sy = (x.a[1] if fx else x), (y.a[1] if fy else y)
            if sx is not sy:
                return False
            s0 = st.fork()
            e = eng.elem(s0, sx)
            for s, it in (eng.fmap_cases(s0, x, e) if fx else [(s0, [("one", e)])]):
                for s2, it2 in (eng.fmap_cases(s, y, e) if fy else [(s, [("one", e)])]):
                    if not self.sameseq(eng, s2, tuple(it), tuple(it2)):
                        return False
        return True

    # -- independent parts of a rule, in parallel
    def spread(self, items, fn, jobs=None):
        """fn(item) for every item; they share nothing but the obligations they record"""
        items = list(items)
        jobs = min(jobs or int(os.environ.get("SA_JOBS", "0") or 0) or os.cpu_count() or 1, len(items))
        if jobs <= 1:
            for x in items:
                fn(x)
            return
        sys.stdout.flush()
        sys.stderr.flush()
        todo, running, done = list(enumerate(items)), {}, {}
        while todo or running:
            while todo and len(running) < jobs:
                i, x = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 3
                    try:
                        os.close(r)
                        out = pickle.dumps(self.alone(fn, x))
                        with os.fdopen(w, "wb") as f:
                            f.write(out)
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stderr.flush()
                        os._exit(code)
                os.close(w)
                running[r] = (i, pid)
            for r in select.select(list(running), [], [])[0]:
                i, pid = running[r]
                b = os.read(r, 1 << 20)
                done.setdefault(i, []).append(b)
                if not b:
                    os.close(r)
                    del running[r]
                    if os.waitpid(pid, 0)[1] != 0:
                        for _, p in running.values():
                            os.kill(p, 9)
                            os.waitpid(p, 0)
                        raise RuntimeError("a part of the analysis failed")
        err = None
        for i in sorted(done):
            d = pickle.loads(b"".join(done[i]))
            for k, v in d["findings"]:
                self.findings.setdefault(k, v)
            self.obl.update(d["obl"])
            self.bad.update(d["bad"])
            self.analysed |= d["analysed"]
            self.notes += d["notes"]
            self.incomplete += d["incomplete"]
            for n, v in d["counts"].items():
                setattr(self, n, getattr(self, n) + v)
            err = err or d["error"]
        if err is not None:
            raise {"Budget": Budget, "AnalysisBroken": AnalysisBroken, "RecursionError": RecursionError}[err[0]](err[1])

    def alone(self, fn, x):
        self.findings, self.obl, self.bad = collections.OrderedDict(), collections.Counter(), collections.Counter()
        self.analysed, self.notes, self.incomplete = set(), [], []
        self.nsteps = self.ncalls = self.npaths = self.nloops = 0
        for e in self.engines:
            e.steps = e.calls = e.loops = 0
        err = None
        try:
            fn(x)
        except (Budget, AnalysisBroken, RecursionError) as b:
            err = (b.__class__.__name__, str(b))
        self.finish()
        return {"findings": list(self.findings.items()), "obl": self.obl, "bad": self.bad, "analysed": self.analysed, "notes": self.notes,
                "incomplete": self.incomplete, "error": err,
                "counts": {"nsteps": self.nsteps, "ncalls": self.ncalls, "npaths": self.npaths, "nloops": self.nloops}}

    # -- results
    def need(self, clause, ok, construct, msg, st=None):
        """one obligation"""
        self.obl[clause] += 1
        if not ok:
            self.fail(clause, construct, msg, st)
        return ok

    def fail(self, clause, construct, msg, st=None):
        self.bad[clause] += 1
        key = (clause, construct)
        if key not in self.findings:
            self.findings[key] = (msg, (st.trace()[-40:] + facts_of(st)) if st is not None else [])

    def minimum(self, clause, n):
        """the rule has at least n instances (a rule that matches nothing decides nothing)"""
        if self.obl[clause] < n and not self.findings:
            raise AnalysisBroken("rule '%s' matched %d instances, at least %d expected" % (clause, self.obl[clause], n))

    def finish(self):
        for e in self.engines:
            self.analysed |= {q for q in e.analysed if isinstance(q, str)}
            self.nsteps += e.steps
            self.ncalls += e.calls
            self.nloops += e.loops


def facts_of(st, limit=25):
    out = []
    for k, v in st.facts.items():
        if k.k == "app" and k.a[0] in ("typ",):
            continue
        out.append("fact: %s = %s" % (show(k), show(v) if isinstance(v, Term) else v))
    for c in st.lin:
        out.append("fact: " + linshow(dict(c)))
    return out[-limit:]


def linshow(c):
    return " ".join("%+d%s" % (k, "" if a is None else "*" + show(a)) for a, k in c.items()) + " >= 0"


def outcome(k, v, x):
    return "raises %s" % x if k == "exc" else "returns %s" % show(v)


def vshow(st, v):
    o = st.get(v)
    if o is not None and o.seq is not None:
        return "[%s]" % ", ".join(("" if k == "one" else "*") + show(x) for k, x in o.seq)
    if o is not None and o.ent is not None:
        return "{%s}" % ", ".join("%s: %s" % (show(k), vshow(st, x)) for k, x in o.ent.items())
    return show(v)


def excterm(ck, n):
    return T("cls", n) if n in ck.prog.classes else T("ext", n)


def S(label, ty=None, prov=()):
    return fresh(label, ty, prov)


RULES = collections.OrderedDict()


def rule(pid, **meta):
    def deco(f):
        RULES[pid] = (f, meta)
        return f
    return deco
