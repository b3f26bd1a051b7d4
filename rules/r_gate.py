"""Stage-2 gate, pairing of points and objectives."""
from lib import *
from runlib import *


@rule("C02", ("all", "nodefault", "checkpointing"))
def gate(c):
    """every Stage-2 solver call is dominated by obj(x) <= threshold and by the distance test of its own start point x"""
    R = Run(c)
    for e in R.stage2:
        for ok, merit, objs, dist, x in R.gate_chain(e):
            c.ob(bool(merit), "merit", f"start point {shown(x, 5)}: its objective passed the merit threshold of this iteration"
                 + ("" if merit else f" (compared: {[shown(o, 5) for o in objs]})"), e.where())
            c.ob(dist, "distance", f"start point {shown(x, 5)}: it passed the distance filter", e.where())


@rule("C01", ("all", "nodefault", "checkpointing"))
def pairing(c):
    """every objective value compared, kept or reported for a point is that point's objective, through reference set, shuffle, batching
    and partition"""
    R = Run(c)
    A, q = R.A, R.q
    n = 0
    for e in R.stage2:
        for ok, merit, objs, dist, x in R.gate_chain(e):
            n += 1
            c.ob(bool(merit) or not objs, "gate", f"the objective compared for {shown(x, 5)} is its own: {[shown(o, 5) for o in objs]}", e.where())
    c.floor(n, 1, "gates", "gated start points")
    m = 0
    for e in q.calls("set_best_solution"):
        m += 1
        with q.under(e.node):
            o, p = e.args[1], e.args[2]
            c.ob(q.pair_ok(A.simp(p), A.simp(o)), "reported", f"the best solution reported to an observer is a point with its own objective: "
                 f"({shown(A.simp(o), 5)}, {shown(A.simp(p), 5)})", e.where())
    c.floor(m, 2, "reported", "best solutions reported to observers")


@rule("C01", ("all", "nodefault"))
def pairing_scatter(c):
    """ScatterSearch::run returns (point, objective) pairs, and the best candidate is the reference point of least objective"""
    A = c.an("ScatterSearch::run", ("observers",))
    q = Q(A)
    n = 0
    for f, v, r in returns(A, q):
        if nd(v)[0] == "agg" and nd(v)[2] == "Ok":
            with q.under(r, f):
                vec = field(payload(v, "Ok"), "0")
                for x, p in q.elems(vec):
                    n += 1
                    c.ob(q.pair_ok(field(x, "0"), field(x, "1")), "scatter", f"reference set entry {shown(A.simp(x), 5)} pairs a point with its objective",
                         "src/scatter_search.rs run")
    c.floor(n, 1, "scatter", "returned reference set entries")
    for e in q.calls("set_best_solution"):
        with q.under(e.node):
            c.ob(q.pair_ok(A.simp(e.args[2]), A.simp(e.args[1])), "scatter:reported", "the best solution reported to an observer pairs a point with its objective", e.where())


def relaxed(A, v, self_):
    """v = T + threshold_factor*(1+|T|) -> T"""
    n = nd(A.simp(v))
    if n[0] != "bin" or n[1] != "Add":
        return None
    for t, m in ((n[2], n[3]), (n[3], n[2])):
        nm = nd(m)
        if nm[0] == "bin" and nm[1] == "Mul":
            for fct, s in ((nm[2], nm[3]), (nm[3], nm[2])):
                if fieldend(fct, "threshold_factor") and A.simp(s) == A.simp(binop("Add", fc(1), f64call("abs", t), "f64")):
                    return t
    return None


def fieldend(t, *names):
    """t is a field (or a phi of the location) ending in names"""
    names = list(names)
    n = nd(t)
    while names:
        if n[0] == "fld" and n[2] == names[-1]:
            names.pop()
            n = nd(n[1])
            continue
        return n[0] == "phi" and tuple(n[3][-len(names):]) == tuple(names)
    return True


def is_wait(t):
    n = nd(t)
    return (n[0] == "fld" and n[2] == "wait_cycle") or (n[0] == "phi" and n[3][-1] == "wait_cycle")


def counters(A, h):
    """the counter compared with wait_cycle in loop h: [(phi term at h, its location)]"""
    out = []
    fs = set()
    for n in A.flow.loops[h]:
        fs.add(A.rel(h, n))
    for f in fs:
        for a in atoms(f):
            if a[0] in ("lt", "eq") and a[3] == "i" and (is_wait(a[1]) or is_wait(a[2])):
                o = a[2] if is_wait(a[1]) else a[1]
                for t in walk_terms(o):
                    n = nd(t)
                    if n[0] == "phi" and n[1] == A.uid and n[2] == h and t not in [x[0] for x in out]:
                        out.append((t, n[3], a[1] if is_wait(a[1]) else a[2]))
    return out


def walk_terms(t, d=0):
    yield t
    n = nd(t)
    if d < 4 and n[0] in ("bin", "un", "cast"):
        for x in n[2:4]:
            if isinstance(x, int) and not isinstance(x, bool):
                try:
                    yield from walk_terms(x, d + 1)
                except Exception:
                    pass


@rule("C03", ("all", "nodefault", "checkpointing"))
def waiting(c):
    """a Stage-2 trial that fails the filters adds one to the wait counter; when the counter reaches wait_cycle the threshold is relaxed by
    threshold_factor*(1+|threshold|) and the counter restarts at 0; nothing else changes either"""
    R = Run(c)
    A, q, fl = R.A, R.q, R.fl
    thr = loc(1, "merit_filter", "threshold")
    relax_loops, ok_writes = set(), 0
    for w in A.writes():
        if w.loc != thr or not fl.inl[w.node] or A.guard(w.node) == 0:
            continue
        h = fl.inl[w.node][0]
        v = A.simp(w.val)
        t = relaxed(A, v, R.self_)
        if t is not None:
            relax_loops.add(h)
            c.ob(t == A.simp(A.read(A.sin[w.node], thr)), "relax:base", f"the relaxation starts from the current threshold: {shown(v, 6)}", w.span)
            continue
        ok = objective_of_search(R, v, w.node)
        ok_writes += 1
        c.ob(ok, "threshold:other", f"Stage 2 otherwise sets the threshold only to the objective of a trial that passed or of an accepted local solution: {shown(v, 6)}", w.span)
    c.floor(len(relax_loops), 1, "relax", "loops that relax the threshold")
    for h in sorted(relax_loops):
        cs = counters(A, h)
        if len(cs) != 1:
            c.ob(False, "counter", f"one counter is compared with wait_cycle in the trial loop, found {[shown(x[0], 3) for x in cs]}", f"loop of {where_of(A, h)}")
            continue
        C0, cl, wait = cs[0]
        c.ob(fieldend(wait, "params", "wait_cycle"), "wait_cycle", f"the counter is compared with params.wait_cycle: {shown(wait, 4)}", "")
        inc = A.simp(binop("Add", C0, const(1, "usize"), "usize"))
        reach = B.OR(B.var(("lt", wait, inc, "i")), B.var(("eq",) + tuple(sorted((wait, inc))) + ("i",)))
        T0 = A.simp(mk("phi", A.uid, h, thr)) if (h, thr) in A.phis else A.simp(A.read(A.sin[h], thr))
        solves = [e for e in R.stage2 if fl.inl[e.node][0] == h]
        where = where_of(A, h)
        if solves:
            gates, pts = [], set()
            for e in solves:
                pts.add(A.simp(e.args[1]))
            for x in pts:
                F = OR(*[A.rel(h, e.node) for e in solves if A.simp(e.args[1]) == x])
                n0 = tuple(e.node for e in solves if A.simp(e.args[1]) == x)
                merit, objs, dist = R.gate(x, F, n0)
                g = gate_formula(R, x, F, n0)
                if g is not None:
                    gates.append(g)
            if len(set(gates)) != 1:
                c.ob(False, "gate", "the trial loop has one filter decision", where)
                continue
            gatef = gates[0]
            skip = skip_formula(A, h, pts)
        else:
            # a loop over trials that were set aside because they failed
            gatef, skip = 0, 0
            doms = {nd(a[1])[1] for n in fl.loops[h] for a in atoms(A.rel(h, n)) if a[0] == "is" and nd(a[1])[0] == "next"}
            okd = bool(doms)
            for d in doms:
                for x, p in q.elems(d):
                    F = q.pushguard(p)
                    nodes = tuple(q.pushnodes(p))
                    if not nodes or not failing(R, x, F, nodes):
                        okd = False
            c.ob(okd, "set-aside", "the trials counted here are those that failed the filters", where)
        n = 0
        for x, v in R.back_cases(h, cl):
            n += 1
            iszero = nd(v)[0] == "c" and nd(v)[1] == 0
            if iszero:
                c.ob(implies(x, AND(NOT(gatef), reach)), "counter:reset", "the counter restarts only when a failing trial makes it reach wait_cycle", where)
            elif v == inc:
                c.ob(implies(x, AND(NOT(gatef), NOT(reach))), "counter:step", "the counter grows by one exactly for a failing trial below wait_cycle", where)
            elif v == C0:
                c.ob(implies(x, OR(gatef, skip)), "counter:keep", "the counter stays only for a trial that passed the filters (or precedes the resume position)", where)
            else:
                c.ob(False, "counter:value", f"the counter becomes {shown(v, 6)}", where)
        for x, v in R.back_cases(h, thr):
            n += 1
            t = relaxed(A, v, R.self_)
            if t is not None:
                c.ob(t == T0 and implies(x, AND(NOT(gatef), reach)), "threshold:relax", "the threshold is relaxed only when a failing trial makes the counter reach wait_cycle", where)
            elif v == T0:
                c.ob(implies(x, OR(gatef, skip, NOT(reach))), "threshold:keep", "the threshold is relaxed whenever the counter reaches wait_cycle", where)
            else:
                c.ob(implies(x, gatef), "threshold:pass", f"the threshold follows an objective only for a trial that passed: {shown(v, 5)}", where)
        c.floor(n, 3, "cases", "cases of the counter and threshold after a trial")
    # a candidate that passed sets the threshold to its objective before its local solution is processed
    k = 0
    for n0, x in R.entries:
        if not fl.inl[n0] or fl.inl[n0][-1] != R.H or A.guard(n0) == 0:
            continue
        v = A.simp(A.read(A.sin[n0], thr))
        k += 1
        h = fl.inl[n0][0]
        pts = {A.simp(e.args[1]) for e in R.stage2 if fl.inl[e.node][0] == h}
        ok = True
        for g, y in q.cases(v):
            if not sat(AND(g, A.guard(n0))):
                continue
            if pts:
                ok = ok and all(q.pair_ok(p, y) for p in pts)
            else:
                n = nd(y)
                ok = ok and n[0] == "fld" and nd(n[1])[0] in ("elem", "at") and objective_of_search(R, y, n0)
        c.ob(ok, "threshold:passed", f"a candidate that passed sets the threshold to its objective before its local solution is processed: {shown(v, 5)}", where_of(A, n0))
    c.floor(k, 1, "passed", "local solutions processed in Stage 2")
    # the pass loops leave the counter alone
    if relax_loops:
        roots = set()
        for h in relax_loops:
            for C0, cl, wt in counters(A, h):
                roots.add(cl)
        for w in A.writes():
            if w.loc in roots and fl.inl[w.node] and fl.inl[w.node][-1] == R.H and fl.inl[w.node][0] not in relax_loops and A.guard(w.node) != 0:
                c.ob(A.simp(w.val) == A.simp(A.read(A.sin[w.node], w.loc)), "counter:elsewhere", f"the counter is also changed to {shown(A.simp(w.val), 5)}", w.span)


def where_of(A, h):
    b = A.nodes[h]
    return getattr(b, "span", "") or f"{plain_leaf(b.ctx.body.path)}"


def gate_formula(R, x, F, nodes):
    """the filter decision for x as a formula over the atoms of F"""
    A, q = R.A, R.q
    merit, objs, dist = R.gate(x, F, nodes)
    thr, dsol = set(), set()
    for n in nodes:
        thr |= R.at_point(n, "merit_filter", "threshold")
        dsol |= R.at_point(n, "distance_filter", "solutions")
    if not merit or not dist:
        return None
    prs = {frozenset(a[1:3]) for a in atoms(F) if a[0] in ("lt", "eq") and a[3] == "f"}
    t = [t for t in thr if t != merit[0] and frozenset((merit[0], t)) in prs and implies(F, le(merit[0], t))]
    ex = [a for a in atoms(F) if a[0] == "exists" and len(a[1]) == 1 and a[1][0] in dsol and implies(F, NOT(B.var(a)))]
    if not t or not ex:
        return None
    return AND(le(merit[0], t[0]), NOT(B.var(ex[0])))


def failing(R, x, F, nodes):
    """F implies that x failed the merit or the distance test"""
    A, q = R.A, R.q
    thr, dsol = set(), set()
    for n in nodes:
        thr |= R.at_point(n, "merit_filter", "threshold")
        dsol |= R.at_point(n, "distance_filter", "solutions")
    bad = 0
    for a in atoms(F):
        if a[0] in ("lt", "eq") and a[3] == "f" and (a[2] in thr or a[1] in thr):
            o, t = (a[1], a[2]) if a[2] in thr else (a[2], a[1])
            bad = OR(bad, NOT(le(o, t)))
        if a[0] == "exists" and len(a[1]) == 1 and a[1][0] in dsol:
            bad = OR(bad, B.var(a))
    return bad != 0 and implies(F, bad)


def skip_formula(A, h, pts):
    """the trial lies before the resume position"""
    idx = set()
    for x in pts:
        n = nd(x)
        if n[0] == "fld":
            idx.add(A.simp(project(n[1], "0")))
        if n[0] in ("elem", "at"):
            idx.add(mk("idx", n[1], n[2]))
    r = 0
    for n in A.flow.loops[h]:
        for a in atoms(A.rel(h, n)):
            if a[0] == "lt" and a[3] == "i" and a[1] in idx:
                r = OR(r, B.var(a))
            # idx < s written as not (s <= idx)
            if a[0] == "lt" and a[3] == "i" and a[2] in idx:
                r = OR(r, AND(NOT(B.var(a)), NOT(B.var(("eq",) + tuple(sorted(a[1:3])) + ("i",)))))
    return r


def objective_of_search(R, v, node, d=0):
    """v is the objective of a local solution, or of the point of the same trial"""
    A, q = R.A, R.q
    for g, y in q.cases(v):
        if not sat(AND(g, A.guard(node))):
            continue
        n = nd(y)
        if n[0] == "fld" and n[2] == "objective":
            continue
        if call_of(y, "objective") is not None:
            continue
        if n[0] == "at":        # a precomputed objective, its pairing is C01's concern
            continue
        if n[0] == "fld" and any(q.pair_ok(project(n[1], k), y) for k in ("0", "1", "2") if k != n[2]):
            continue
        acc, comps, full = q.access(y)
        if acc is not None and d < 6:
            vs = q.elem_of(acc)
            if vs and not (len(vs) == 1 and vs[0][0] == full):
                ok = True
                for e, p in vs:
                    z = e
                    for k in comps:
                        z = project(z, k)
                    if z == UNDEF:
                        continue
                    # kept together with the result of a search: the objective of that search's start point
                    xs = searched(e)
                    if xs:
                        ok = ok and all(q.pair_ok(A.simp(x), A.simp(z)) for x in xs)
                    else:
                        ok = ok and objective_of_search(R, A.simp(z), node, d + 1)
                if ok:
                    continue
        return False
    return True


def searched(t, d=0, seen=None):
    """start points of the solver calls whose results t contains"""
    n = nd(t)
    if n[0] == "call" and leafname(n[1]) in SOLVE:
        return [n[2][1]]
    out = []
    if d < 8 and n[0] in ("agg", "fld", "phi"):
        kids = n[4] if n[0] == "agg" else (n[1],) if n[0] == "fld" else ()
        for k in kids:
            if isinstance(k, int):
                out += searched(k, d + 1)
    return out
