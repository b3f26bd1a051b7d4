"""Queries on the inlined OQNLP::run shared by the Stage-2 properties."""
from lib import *

OPQ = ("LocalSolver", "ScatterSearch", "CheckpointManager", "observers", "target_objective_reached")
SOLVE = ("solve", "solve_with_tracking")


class Run:
    def __init__(self, c, opq=OPQ, **kw):
        self.c = c
        self.A = A = c.an("OQNLP::run", opq, **kw)
        self.q = q = Q(A)
        q.axiom_pair = ss_pair
        self.fl = A.flow
        self.solves = [e for e in q.calls(*SOLVE) if "LocalSolver" in e.path or "LocalSolver" in e.fn]
        self.stage2 = [e for e in self.solves if self.fl.inl[e.node]]
        self.stage1 = [e for e in self.solves if not self.fl.inl[e.node]]
        c.floor(len(self.stage2), 1, "stage2-solves", "Stage-2 local solver calls in run()")
        c.floor(len(self.stage1), 1, "stage1-solves", "Stage-1 local solver calls in run()")
        self.entries = self.frame_entries("process_local_solution")
        self.self_ = arg(A, 1)
        hs = {self.fl.inl[e.node][-1] for e in self.stage2}
        c.need(len(hs) == 1, "main-loop", "Stage 2 is one outer loop")
        self.H = hs.pop()

    def frame_entries(self, name):
        """first node of each inlined frame of function `name` (and the frame)"""
        out = {}
        for n in self.fl.order:
            x = self.A.nodes[n].ctx
            while x is not None:
                if plain_leaf(x.body.path) == name:
                    if id(x) not in out:
                        out[id(x)] = (n, x)
                    break
                x = x.parent
        return list(out.values())

    def dominators_in_loop(self, n, h):
        """dominators of n inside the loop h (h included)"""
        out = [n]
        while n != h and n in self.fl.idom and self.fl.idom[n] != n:
            n = self.fl.idom[n]
            if h is not None and n not in self.fl.loops[h]:
                break
            out.append(n)
            if n == self.fl.entry:
                break
        return out

    def values_at(self, nodes, *path):
        A = self.A
        l = loc(1, *path)
        out = set()
        for n in nodes:
            for st in (A.sin.get(n), A.sout.get(n)):
                if st is not None:
                    out.add(A.simp(A.read(st, l)))
        return out

    def at_point(self, node, *path):
        """values the state field had during the iteration that reaches node"""
        h = self.fl.inl[node][0] if self.fl.inl[node] else None
        return self.values_at(self.dominators_in_loop(node, h), *path)

    def gate(self, x, F, nodes):
        """does F imply that point x passed the merit and the distance test -> (objective terms, distance ok)"""
        q, A = self.q, self.A
        thr = set()
        dsol, dfac = set(), set()
        for n in nodes:
            thr |= self.at_point(n, "merit_filter", "threshold")
            dsol |= self.at_point(n, "distance_filter", "solutions")
            dfac |= self.at_point(n, "distance_filter", "params", "distance_factor")
        merit, objs, dist = [], [], False
        for a in atoms(F):
            if a[0] in ("lt", "eq") and a[3] == "f" and (a[2] in thr or a[1] in thr):
                o, t = (a[1], a[2]) if a[2] in thr else (a[2], a[1])
                if o not in objs and implies(F, le(o, t)):
                    objs.append(o)
                    if q.pair_ok(x, o):
                        merit.append(o)
            if a[0] == "exists" and len(a[1]) == 1 and a[1][0] in dsol and implies(F, NOT(B.var(a))):
                e = mk("elem", a[1][0], a[3])
                d2 = mk("call", "dist2", tuple(sorted((x, field(e, "point")))), "")
                for df in dfac:
                    if equiv(a[2], NOT(lt(binop("Mul", df, df, "f64"), d2)), (d2,)):
                        dist = True
        return merit, objs, dist

    def gate_chain(self, e):
        """follow the start point of solver call e back through the collections it was kept in until the gate shows:
        [(ok, merit, objs, dist, point)]"""
        q, A = self.q, self.A
        out, todo, seen = [], [(A.simp(e.args[1]), A.guard(e.node), (e.node,), 0)], set()
        while todo:
            x, F, nodes, d = todo.pop()
            if F == 0 or (x, F) in seen:
                continue
            seen.add((x, F))
            merit, objs, dist = self.gate(x, F, nodes)
            if merit and dist:
                out.append((True, merit, objs, dist, x))
                continue
            nxt = []
            cs = q.cases(x)
            if len(cs) > 1 or cs[0][1] != x:
                nxt = [(y, B.AND(F, g), nodes, d + 1) for g, y in cs]
            else:
                acc, comps, full = q.access(x)
                if acc is not None and d < 10:
                    vs = q.elem_of(acc)
                    if vs and not (len(vs) == 1 and vs[0][0] == full):
                        for v, p in vs:
                            y = v
                            for cmpn in comps:
                                y = project(y, cmpn)
                            if y == UNDEF:
                                continue
                            pn = tuple(q.pushnodes(p)) if p is not None else ()
                            nxt.append((A.simp(y), B.AND(F, q.pushguard(p)), nodes + pn, d + 1))
            if not nxt:
                out.append((False, merit, objs, dist, x))
            todo += nxt
        return out

    # ---- loops
    def back_cases(self, h, l):
        """[(condition of completing an iteration of h, value of location l at its end)]"""
        A, q = self.A, self.q
        ph = None
        out = []
        for p in self.fl.pred[h]:
            if (p, h) in self.fl.back:
                f = A.region(h)[1].get((p, h), 0)
                if f == 0:
                    continue
                for g, v in q.cases(A.read(A.sout[p], l)):
                    x = B.AND(f, g)
                    if x != 0:
                        out.append((x, v))
        return out


def plain_leaf(p):
    from inline import plain
    return plain(p).rsplit("::", 1)[-1]


def ss_pair(p, o):
    """the reference set returned by ScatterSearch::run is paired (shown on ScatterSearch::run itself)"""
    np_, no = nd(p), nd(o)
    if np_[0] == "fld" and no[0] == "fld" and np_[1] == no[1] and np_[2] == "0" and no[2] == "1":
        x = nd(np_[1])
        if x[0] in ("elem", "at"):
            b, comps = chain(x[1])
            return nd(b)[0] == "call" and leafname(nd(b)[1]) == "run" and "ScatterSearch" in nd(b)[1] and [k for k in comps if k != "#Ok"] == ["0", "0"]
    return False
