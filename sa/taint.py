"""Non-interference on an inlined function: which values and decisions depend on a source (an observer, a flag, a clock ...).

Branches on the source are allowed as long as both sides come back together: the condition of every way out of the branch region, over both sides, must be free of the source,
effects inside must happen on all sides alike, and values that differ at the join count as the source from there on.  Then every value that matters is sliced backwards; it must not
reach the source."""
import heapq
from terms import *
from q import B, leafname, mapf, atoms, project, rebuild
from slice import Slice


class Taint(Slice):
    def __init__(self, A, q, source, canon=None, effect=None, skip=None):
        super().__init__(A, q, self.src, canon, skip)
        self.base, self.effect = source, effect or (lambda e: None)
        self.T = set()          # (join phi, component path) found to differ
        self.M = {}             # join phis at the ends of regions
        self._ch = {}
        self.bad = []           # (node, message)
        self.regions = {}
        self._ta = {}

    def src(self, t):
        s = self.base(t)
        if s is not None:
            return s
        b, path = t, []
        while b not in self.M and nd(b)[0] == "fld":
            path.append(nd(b)[2])
            b = nd(b)[1]
        if b in self.M and self.chosen(b, tuple(reversed(path))):
            return "value chosen by it"
        return None

    def chosen(self, b, path):
        """does the component of join phi b differ with the source?"""
        k = (b, path)
        r = self._ch.get(k)
        if r is None:
            self._ch[k] = False
            r = False
            for node, ops, es in self.M[b]:
                by = {}
                for p, g in es:
                    if p not in ops or ops[p] == UNDEF:
                        continue
                    y = ops[p]
                    for c in path:
                        y = project(y, c) if y != UNDEF else y
                    if y == UNDEF:
                        continue
                    for g2, v in self.q.cases(y):
                        v = self.canon(v)
                        x = B.AND(g, self.canonf(g2))
                        by[v] = B.OR(by.get(v, 0), x)
                by = {v: g for v, g in by.items() if g != 0}
                if len(by) > 1 and not all(self.free(x) for x in by.values()):
                    r = True
            self._ch[k] = r
            if r:
                self.T.add(k)
        return r

    # values only: control is checked by regions
    def gates(self, ops, t, me):
        return list({self.canon(v) for v in ops.values() if v != UNDEF})

    def formula_or(self, fs, me):
        pass

    def tainted(self, t, kind="v"):
        """does the value (kind v) or the extent (kind s) of t reach the source?"""
        r = self._ta.get((t, kind))
        if r is None:
            s = Taint(self.A, self.q, self.base, self.rw, skip=self.skip)
            s.T, s._c, s.M, s._ch = self.T, self._c, self.M, self._ch
            s.add(kind, s.canon(t), None)
            r = self._ta[(t, kind)] = bool(s.run())
        return r

    def tainted_atom(self, a):
        if a[0] == "exists":
            return any(self.tainted_atom(x) for x in atoms(a[2])) or any(self.tainted(d, "s") for d in a[1])
        if a[0] == "is" and nd(a[1])[0] == "next":
            return False
        for t in a[1:]:
            if type(t) is int and not isinstance(t, bool) and a[0] in ("lt", "eq", "nan", "b", "is"):
                if self.tainted(t):
                    return True
            if a[0] in ("is", "b", "nan"):
                break
        return False

    def free(self, f):
        return not any(self.tainted_atom(a) for a in atoms(f))

    def edge(self, n, s):
        """condition of the edge; the conditions of a node's edges add up to everything, also where none of a join's gates holds"""
        A = self.A
        if s not in self.alive:
            return 0
        outs = [x for x in A.flow.succ[n] if x in self.alive]
        return self.total(outs, s, lambda x: A.edge_cond(n, x))

    def total(self, outs, s, cond):
        if len(outs) < 2:
            return 1
        if s != outs[-1]:
            return self.canonf(cond(s))
        r = 0
        for x in outs[:-1]:
            r = B.OR(r, self.canonf(cond(x)))
        return B.NOT(r)

    def solve(self):
        A = self.A
        self.alive = A.alive()
        while True:
            k = len(self.T), len(self.M)
            self._ta, self._ch = {}, {}
            self.bad, self.regions, covered = [], {}, set()
            for d in A.flow.order:
                if d in covered or A.nodes[d].t[0] != "switch":
                    continue
                outs = [s for s in A.flow.succ[d] if s in self.alive]
                if len(outs) < 2:
                    continue
                if all(self.free(self.canonf(A.edge_cond(d, s))) for s in outs):
                    continue
                covered |= self.region(d)
            if (len(self.T), len(self.M)) == k:
                return self

    def region(self, d):
        A, fl = self.A, self.A.flow
        inedges = {}
        G = {d: 1}
        self.G = G
        heap, queued = [(fl.num[d], d)], {d}
        members = set()
        merges = {}

        def push(p, n, f):
            if f == 0 or n not in self.alive:
                return
            out = (p, n) in fl.back
            tab = merges if out else inedges
            tab.setdefault(n, []).append((p, f))
            if out:
                return
            if n not in queued:
                queued.add(n)
                heapq.heappush(heap, (fl.num[n], n))
        while heap:
            _, n = heapq.heappop(heap)
            if n != d:
                g = 0
                for p, f in inedges[n]:
                    g = B.OR(g, f)
                G[n] = g
                if self.free(g):
                    merges[n] = inedges[n]
                    continue
            members.add(n)
            if n in fl.loops and d not in fl.loops[n]:
                members |= fl.loops[n]
                ex = A.loop_exits(n)
                outs = [x for x in ex if x[1] in self.alive]
                for x in outs:
                    push(x[0], x[1], B.AND(G[n], self.total(outs, x, lambda y: ex[y])))
                continue
            for s in fl.succ[n]:
                push(n, s, B.AND(G[n], self.edge(n, s)))
        self.regions[d] = members
        for n, es in merges.items():
            f = 0
            for p, g in es:
                f = B.OR(f, g)
            if not self.free(f):
                self.bad.append((d, n, "which way the algorithm goes on depends on it"))
            for (m, k), ops in list(A.phis.items()):
                if m != n:
                    continue
                if len({ops[p] for p, g in es if p in ops}) > 1:
                    for t in {mk("phi", A.uid, n, k), A.simp(mk("phi", A.uid, n, k))}:
                        if nd(t)[0] == "phi":
                            l = self.M.setdefault(t, [])
                            if (n, ops, es) not in l:
                                l.append((n, ops, es))
        # effects inside
        by = {}
        for n in members:
            for e in A.events_at.get(n, ()):
                c = self.effect(e)
                if c is not None:
                    key = (c[0], tuple(self.canon(x) for x in c[1]))
                    if n in G:
                        by[key] = (B.OR(by.get(key, (0, e))[0], G[n]), e)
                    else:
                        by[key] = (-1, e)
        for key, (g, e) in by.items():
            if g == -1 or not self.free(g):
                self.bad.append((d, e.node, f"{leafname(e.path)} happens only for some of its values"))
        return members
