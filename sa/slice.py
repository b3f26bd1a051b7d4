"""Backward slices over gated-SSA terms: everything a value or a condition can depend on, data and control."""
from terms import *
from q import B, Q, leafname, mapf, atoms, project


class Slice:
    """canon: term -> term or None (rewrites, applied everywhere); source: term -> label or None (a dependency looked for; not followed further)"""

    def __init__(self, A, q, source, canon=None, skip=None):
        self.A, self.q, self.source, self.rw = A, q, source, canon
        self.skip = skip or (lambda t: False)
        self.seen = {}
        self.hits = {}
        self.work = []
        self._c = {}

    def canon(self, t):
        r = self._c.get(t)
        if r is None:
            from q import rebuild
            r = self.A.simp(t)
            if self.rw:
                r = self.A.simp(rebuild(r, self.rw))
            self._c[t] = r
        return r

    def canonf(self, f):
        return mapf(f, self.canon) if self.rw else f

    def add(self, kind, x, why):
        if (kind, x) not in self.seen:
            self.seen[(kind, x)] = why
            self.work.append((kind, x))

    def value(self, t, why=None):
        self.add("v", self.canon(t), why)

    def formula(self, f, why=None):
        if f > 1:
            self.add("f", self.canonf(f), why)

    def shape(self, t, why=None):
        self.add("s", self.canon(t), why)

    def run(self):
        while self.work:
            k, x = self.work.pop()
            me = (k, x)
            if k == "f":
                for a in atoms(x):
                    self.atom(a, me)
                continue
            s = self.source(x)
            if s is not None:
                self.hits.setdefault(s, me)
                continue
            if self.skip(x):
                continue
            if k == "v":
                self.term(x, me)
            else:
                self.shaped(x, me)
        return self.hits

    def atom(self, a, me):
        if a[0] == "exists":
            for d in a[1]:
                self.shape(d, me)
            self.formula(a[2], me)
            return
        for t in a[1:]:
            if type(t) is int and not isinstance(t, bool):
                if a[0] in ("lt", "eq", "nan", "b", "is", "val", "discr"):
                    if a[0] == "is" and nd(t)[0] == "next":
                        self.shape(nd(t)[1], me)
                    else:
                        self.value(t, me)
                    if a[0] in ("is", "b", "nan"):
                        break

    def gates(self, ops, t, me):
        """conditions that choose between different operands"""
        A, n = self.A, nd(t)
        h = n[2]
        by = {}
        for p, v in ops.items():
            if v == UNDEF:
                continue
            by.setdefault(self.canon(v), []).append(p)
        if h in A.flow.loops:
            reg = A.region(h)[1]
            for v, ps in by.items():
                back = [p for p in ps if (p, h) in A.flow.back]
                if back and v != self.canon(t):
                    self.formula_or([reg.get((p, h), 0) for p in back], me)
            for e, f in A.loop_exits(h).items():
                self.formula(f, me)
        elif len(by) > 1:
            for v, ps in by.items():
                self.formula_or([A.gate(p, h) for p in ps], me)
        return list(by)

    def formula_or(self, fs, me):
        r = 0
        for f in fs:
            r = B.OR(r, self.canonf(f))
        if r > 1:
            self.add("f", r, me)

    def term(self, t, me):
        A, q = self.A, self.q
        n = nd(t)
        acc, comps, full = q.access(t)
        if acc is not None:
            vs = q.elem_of(acc)
            na = nd(acc)
            coll = na[1] if na[0] != "call" else na[2][0]
            if vs and not (len(vs) == 1 and vs[0][0] == full):
                for v, p in vs:
                    y = v
                    for c in comps:
                        y = project(y, c)
                    if y == UNDEF or y == t:
                        continue
                    self.value(y, me)
                self.shape(coll, me)
                if na[0] == "at":
                    self.value(na[2], me)
                return
        if n[0] == "phi" and n[1] == A.uid:
            for v in self.gates(q.ops(t), t, me):
                self.value(v, me)
            return
        if n[0] == "fld":
            cs = q.cases(t)
            if len(cs) > 1 or cs[0][1] != t:
                by = {}
                for g, v in cs:
                    by.setdefault(self.canon(v), []).append(g)
                for v, gs in by.items():
                    self.value(v, me)
                    if len(by) > 1:
                        self.formula_or(gs, me)
                return
            b, path = t, []
            while nd(b)[0] == "fld":
                path.append(nd(b)[2])
                b = nd(b)[1]
            if nd(b)[0] == "phi" and nd(b)[1] == A.uid:
                # loop phi of a structure: the component's own values
                ops = {}
                for p, v in q.ops(b).items():
                    y = v
                    for c in reversed(path):
                        y = project(y, c) if y != UNDEF else y
                    ops[p] = y
                for v in self.gates(ops, b, me):
                    if v != t:
                        self.value(v, me)
                return
        if n[0] == "mut" and n[1] == A.uid:
            res, path, vals, old, loc = A.mutinfo[(n[2], n[3])]
            for v in vals:
                self.value(v, me)
            self.value(old, me)
            return
        if n[0] == "call" and leafname(n[1]) in ("len", "is_empty") and len(n[2]) == 1:
            self.shape(n[2][0], me)
            return
        if n[0] in ("next", "idx"):
            self.shape(n[1], me)
            return
        if n[0] == "push":
            self.value(n[1], me)
            self.value(n[2], me)
            return
        for c in children(t):
            self.value(c, me)

    def shaped(self, t, me):
        A, q = self.A, self.q
        n = nd(t)
        if n[0] == "phi" and n[1] == A.uid:
            for v in self.gates(q.ops(t), t, me):
                self.shape(v, me)
            return
        if n[0] == "push":
            self.shape(n[1], me)
            return
        if n[0] == "upd":
            self.shape(n[1], me)
            return
        if n[0] == "agg" and n[1].startswith("models::"):
            for c in n[4]:
                self.shape(c, me)
            return
        if n[0] == "mut" and n[1] == A.uid and leafname(A.mutinfo[(n[2], n[3])][1]).startswith(("sort", "shuffle", "reverse", "swap")):
            self.shape(A.mutinfo[(n[2], n[3])][3], me)
            return
        self.term(t, me)

    def trail(self, item, depth=4, limit=12):
        out = []
        while item is not None and len(out) < limit:
            k, x = item
            out.append(f"{k}:" + (shown(x, depth) if k != "f" else self.A.show_f(x, 2)))
            item = self.seen[item]
        return out
