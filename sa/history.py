"""Inductive invariants of objects over arbitrary sequences of calls.

A history starts from some states and applies a step again and again.  States are put into classes by the shape of the object
graph below given roots; for each class the values that never vary are kept, the others become arbitrary, constrained by the
equalities between texts and the linear relations between numbers that every arrival satisfies (guess and check)."""
import itertools
from terms import *
from state import *
from engine import *


class Shape:
    pass


class History:
    def __init__(self, e, base, roots, seqs=(), ints=(), anys=(), cap=60):
        """roots: objects; seqs: names of ghosts holding texts; ints: names of ghosts holding numbers"""
        self.e, self.base, self.roots, self.seqs, self.ints, self.anys, self.cap = \
            e, base, list(roots), tuple(seqs), tuple(ints), tuple(anys), cap
        self.shapes = {}
        self.extra = None    # adds facts that hold of the ghosts of every state

    # -- the object graph
    def walk(self, st):
        """[(path, kind, value, setter)] of the values below the roots"""
        out, seen, todo = [], {}, [((i,), r) for i, r in enumerate(self.roots)]
        key = []
        for p, r in todo:
            pass
        stack = list(reversed(todo))
        while stack:
            path, v = stack.pop()
            if not isinstance(v, Term):
                continue
            o = st.get(v)
            if o is None:
                ty = typeof(st, v)
                if v is NONE or v is ABSENT or v.k == "c" and isinstance(v.a[1], bool):
                    key.append((path, show(v)))
                elif ty == "int":
                    key.append((path, "int"))
                    out.append((path, "int", v))
                elif isstr(st, v):
                    key.append((path, "text"))
                    out.append((path, "text", v))
                elif v.k == "tup":
                    key.append((path, "tup%d" % len(v.a)))
                else:
                    key.append((path, "any"))
                    out.append((path, "any", v))
                continue
            if v in seen:
                key.append((path, "same", seen[v]))
                continue
            seen[v] = path
            key.append((path, o.kind, show(o.cls) if o.cls is not None else "", o.x if isinstance(o.x, str) else ""))
            if o.lazy and o.cls is not None and o.cls.k == "cls" and not o.attrs and o.ent is None:
                continue
            for n in sorted(o.attrs, reverse=True):
                stack.append((path + (n,), o.attrs[n]))
            if o.ent is not None:
                for k in sorted(o.ent, key=show, reverse=True):
                    if o.ent[k] is not ABSENT:
                        stack.append((path + (("item", k),), o.ent[k]))
            if o.seq is not None:
                if all(k == "one" for k, _ in o.seq) and len(o.seq) <= 4:
                    key.append((path, "len", len(o.seq)))
                    for i, (_, x) in reversed(list(enumerate(o.seq))):
                        stack.append((path + (("elem", i),), x))
                else:
                    key.append((path, "list"))
        for g in self.seqs:
            out.append((("ghost", g), "text", st.ghost[g]))
        for g in self.ints:
            out.append((("ghost", g), "int", st.ghost[g]))
        for g in self.anys:
            v = st.ghost[g]
            k = "text" if isstr(st, v) else "any"
            if v is NONE:
                key.append((("ghost", g), show(v)))
            else:
                key.append((("ghost", g), k))
                out.append((("ghost", g), k, v))
        for g in sorted(st.ghost, key=str):
            if g not in self.seqs and g not in self.ints and g not in self.anys:
                key.append((g, show(st.ghost[g]) if isinstance(st.ghost[g], Term) else str(st.ghost[g])))
        return tuple(key), out

    def put(self, st, path, v):
        if path[0] == "ghost":
            st.ghost[path[1]] = v
            return
        obj = self.roots[path[0]]
        for n in path[1:-1]:
            obj = self.step(st, obj, n)
        n = path[-1]
        o = st.mut(obj)
        if isinstance(n, tuple) and n[0] == "item":
            o.ent[n[1]] = v
        elif isinstance(n, tuple):
            o.seq = o.seq[:n[1]] + (("one", v),) + o.seq[n[1] + 1:]
        else:
            o.attrs[n] = v

    def step(self, st, obj, n):
        o = st.get(obj)
        if isinstance(n, tuple) and n[0] == "item":
            return o.ent[n[1]]
        if isinstance(n, tuple):
            return o.seq[n[1]][1]
        return o.attrs[n]

    # -- invariants
    def dims(self, leaves):
        d = {}
        for path, kind, v in leaves:
            if kind == "int":
                d[path] = lin(v)
            elif kind == "text":
                d[path + ("len",)] = lenof(v)
        return d

    def guesses(self, st, d, consts):
        out = []
        names = sorted(d, key=str)
        for a in names:
            for sgn in (1, -1):
                out.append((frozenset([(a, sgn)]), 0, None))
                for c in consts:
                    out.append((frozenset([(a, sgn)]), 0, (c, -sgn)))
        for a, b in itertools.permutations(names, 2):
            out.append((frozenset([(a, 1), (b, -1)]), 0, None))
        return [g for g in out if self.true(st, d, g)]

    def equal(self, st, k, v, l, w):
        if k != l or k == "int":
            return False
        return v is w or k == "text" and self.e.norm_eq(st, v, w)

    def form(self, d, g):
        l = lconst(g[1])
        for n, k in g[0]:
            l = ladd(l, d[n], k)
        if g[2] is not None:
            l = ladd(l, lin(g[2][0]), g[2][1])
        return l

    def true(self, st, d, g):
        return entails(st, self.form(d, g))

    def arrive(self, st, consts=()):
        """True when the class of this state is new or has to be widened"""
        key, leaves = self.walk(st)
        sh = self.shapes.get(key)
        if sh is None:
            if len(self.shapes) >= self.cap:
                raise Budget("too many kinds of states")
            sh = self.shapes[key] = Shape()
            sh.rep = st.fork()
            sh.fixed = {p: v for p, k, v in leaves}
            sh.first = dict(sh.fixed)
            sh.kinds = {p: k for p, k, v in leaves}
            sh.eq = [(p, q) for (p, k, v), (q, l, w) in itertools.combinations(leaves, 2) if self.equal(st, k, v, l, w)]
            sh.inv = self.guesses(st, self.dims(leaves), consts)
            sh.facts = dict(st.facts)
            sh.lin = set(st.lin)
            return True
        changed = False
        vals = {p: v for p, k, v in leaves}
        for p, v in list(sh.fixed.items()):
            if vals.get(p) is not v:
                del sh.fixed[p]
                changed = True
        for p, q in list(sh.eq):
            if not self.equal(st, sh.kinds[p], vals[p], sh.kinds[q], vals[q]):
                sh.eq.remove((p, q))
                changed = True
        d = self.dims(leaves)
        keep = [g for g in sh.inv if self.true(st, d, g)]
        if len(keep) != len(sh.inv):
            sh.inv = keep
            changed = True
        for f, b in list(sh.facts.items()):
            if st.facts.get(f) is not b and st.facts.get(f) != b:
                del sh.facts[f]
                changed = True
        for c in list(sh.lin):
            if c not in st.lin and not entails(st, dict(c)):
                sh.lin.discard(c)
                changed = True
        return changed

    def make(self, sh):
        st = sh.rep.fork()
        st.facts = dict(sh.facts)
        st.lin = frozenset(sh.lin)
        st.trail = self.base.trail
        syms = {}
        group = {}
        for p, q in sh.eq:
            group.setdefault(q, group.get(p, p))
        leaves = []
        for p, k in sh.kinds.items():
            if p in sh.fixed:
                leaves.append((p, k, sh.fixed[p]))
                continue
            r = group.get(p, p)
            v = sh.fixed.get(r)
            if v is None:
                v = syms.get(r)
            if v is None:
                ty = "int" if k == "int" else (typeof(st, sh.first[r]) if k == "text" else None)
                v = syms[r] = T("sym", ("hist", id(self), id(sh), r), ".".join(str(x) for x in r[1:]), ty, ())
            self.put(st, p, v)
            leaves.append((p, k, v))
        d = self.dims(leaves)
        for g in sh.inv:
            add_lin(st, self.form(d, g))
        if self.extra:
            self.extra(st)
        return st

    def run(self, states, step, consts=(), rounds=40):
        """step(state) -> following states.  Returns a generic state per class."""
        for s in states:
            self.arrive(s, consts)
        for _ in range(rounds):
            changed = False
            for sh in list(self.shapes.values()):
                for s in step(self.make(sh)):
                    changed = self.arrive(s, consts) or changed
            if not changed:
                return [self.make(sh) for sh in self.shapes.values()]
        raise Budget("histories do not stabilise")
