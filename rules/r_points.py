"""User-supplied start points: validation, storage, and their way into the reference set."""
from lib import *
from runlib import *
from r_scatter import infeasible_atom

REMOVERS = ("truncate", "retain", "retain_mut", "drain", "pop", "remove", "swap_remove", "clear", "dedup", "dedup_by", "dedup_by_key", "split_off", "resize")


def same_elem(x, y):
    """elements of the same collection (at the same position: both stand for 'the point looked at')"""
    a, b = nd(x), nd(y)
    return x == y or (a[0] == "elem" and b[0] == "elem" and a[1] == b[1])


def facts(A, q, F, e):
    """what F says about e, universal statements over e's collection included; dim / oob named"""
    d = nd(e)[1] if nd(e)[0] == "elem" else None
    r = F
    for a in atoms(F):
        if a[0] == "exists" and d is not None and a[1] and a[1][0] == d and implies(F, NOT(B.var(a))):
            inner = mapf(a[2], lambda t: rebuild(t, lambda s: e if nd(s)[0] == "elem" and nd(s)[1] == d else None))
            r = AND(r, NOT(inner))
    return canon(A, r, e)


def canon(A, F, e):
    def f(a):
        p = oob_atom(a, lambda t: same_elem(t, e))
        if p is not None:
            return named("oob")
        if a[0] == "eq" and a[3] == "i":
            s = {dims(a[1], e), dims(a[2], e)}
            if s == {"p", "b"}:
                return named("dim")
        if a[0] == "is" and nd(a[1])[0] == "next":
            return 1 if a[2] == "Some" else 0
        return None
    return replace_atoms(F, f)


def dims(t, e):
    n = nd(t)
    if n[0] == "call" and leafname(n[1]) in ("len", "nrows", "ncols", "len_of", "dim"):
        x = n[2][0]
        if same_elem(x, e):
            return "p"
        if is_bounds(x) and leafname(n[1]) != "ncols":
            return "b"
        if call_of(x, "column") and is_bounds(call_of(x, "column")[0]) or call_of(x, "outer_iter") and is_bounds(call_of(x, "outer_iter")[0]):
            return "b"
        if nd(e)[0] == "elem":
            o = nd(nd(e)[1])
            if o[0] == "call" and x == o[2][0] and leafname(n[1]) == "ncols":
                return "p"
    return None


@rule("C29", ("all", "nodefault"))
def validate(c):
    """with_points accepts exactly the lists in which every point has the right dimension and lies within the bounds, and keeps every point"""
    A = c.an("OQNLP::<P>::with_points")
    q = Q(A)
    where = "src/oqnlp.rs with_points"
    want = AND(named("dim"), NOT(named("oob")))
    k = 0
    for f, v, r in returns(A, q):
        if not (nd(v)[0] == "agg" and nd(v)[2] == "Ok"):
            continue
        cp = A.simp(project(payload(v, "Ok"), "custom_points"))
        c.ob(nd(cp)[0] == "agg" and nd(cp)[2] == "Some", "stored", f"the points are stored: {shown(cp, 4)}", where)
        coll = payload(cp)
        for x, p in q.elems(coll):
            k += 1
            x = A.simp(x)
            src = nd(x)[1] if nd(x)[0] == "elem" else None
            ok = src is not None and A.argterm(2) in set(subterms(src)) and pure_iter(src)
            c.ob(ok, "stored:points", f"the stored points are the given ones, unchanged and all of them: {shown(x, 4)}", where)
            if not ok:
                continue
            F = AND(f, q.pushguard(p) if p is not None else 1)
            fx = facts(A, q, F, x)
            c.ob(implies(fx, want), "valid", f"a point is accepted only if its dimension is right and every coordinate is a number within its bounds", where)
            if p is not None:
                for n in q.pushnodes(p):
                    hs = A.flow.inl[n]
                    if not hs:
                        continue
                    h = hs[-1]
                    done = OR(*[A.region(h)[1].get((u, h), 0) for u in A.flow.pred[h] if (u, h) in A.flow.back])
                    c.ob(implies(done, A.rel(h, n)), "stored:all", "no valid point is left out", where)
        # nothing else is refused
        for a in atoms(f):
            if a[0] == "exists" and implies(f, NOT(B.var(a))) and a[1]:
                e = mk("elem", a[1][0], a[3])
                g = canon(A, a[2], e)
                if set(atoms(g)) <= set(atoms(want)):
                    c.ob(not sat(AND(g, want)), "refused", "a point with the right dimension within its bounds is never refused", where)
    c.floor(k, 1, "points", "ways points are stored")


def pure_iter(t):
    """an iteration over everything, in order"""
    for x in subterms(t):
        n = nd(x)
        if n[0] == "agg" and n[1] in ("models::Take", "models::Skip", "models::StepBy", "models::Filter"):
            return False
        if n[0] == "call" and leafname(n[1]) in ("slice", "select", "split_at", "slice_axis", "take", "skip"):
            return False
    return True


@rule("C29", ("all", "nodefault", "rayon"))
def passed(c):
    """Stage 1 gets the stored points"""
    R = Run(c)
    A, q = R.A, R.q
    cp = field(R.self_, "custom_points")
    es = [e for e in A.events() if plain_leaf(e.path) == "run" and "ScatterSearch" in e.path]
    c.floor(len(es), 1, "stage1", "Stage-1 runs")
    for e in es:
        for g, v in q.cases(e.args[0]):
            F = AND(A.guard(e.node), g, some(A, cp))
            c.ob(handed(A, q, v, F, A.simp(payload(cp))), "passed", f"the points given by the user are handed to Stage 1: {shown(v, 4)}", e.where())
    S = c.an("with_custom_points")
    for f, v, r in returns(S, Q(S)):
        x = S.simp(project(v, "custom_points"))
        c.ob(nd(x)[0] == "agg" and nd(x)[2] == "Some" and S.simp(nd(x)[4][0]) == S.argterm(2), "kept", f"the scatter search keeps the points given: {shown(x, 4)}", "src/scatter_search.rs with_custom_points")


def handed(A, q, v, F, pts, depth=0):
    """in every case allowed by F the scatter search v was given the points"""
    if not sat(F):
        return True
    n = nd(v)
    if depth > 12 or n[0] != "call":
        return False
    if leafname(n[1]) == "with_custom_points":
        return all(not sat(AND(F, g)) or A.simp(x) == pts for g, x in q.cases(n[2][1]))
    if not n[2]:
        return False
    return all(handed(A, q, x, AND(F, g), pts, depth + 1) for g, x in q.cases(n[2][0]))


def mutations(A, q, t, seen=None):
    """paths of all calls that changed the collection t"""
    seen = set() if seen is None else seen
    out = []
    t = A.simp(t)
    if t in seen:
        return out
    seen.add(t)
    n = nd(t)
    if n[0] == "mut" and n[1] == A.uid:
        info = A.mutinfo[(n[2], n[3])]
        out.append((info[1], n[2]))
        out += mutations(A, q, info[3], seen)
    elif n[0] == "phi" and n[1] == A.uid:
        for v in q.ops(t).values():
            if v != UNDEF:
                out += mutations(A, q, v, seen)
    return out


@rule("C29", ("all", "nodefault", "rayon"))
def included(c):
    """every custom point that satisfies the constraints is evaluated as a member of the initial reference set"""
    A = c.an("initialize_reference_set", ("observers",))
    q = Q(A)
    cp = field(arg(A, 1), "custom_points")
    pts = A.simp(payload(cp))
    where = "src/scatter_search.rs initialize_reference_set"
    obs = [e for e in A.events() if plain_leaf(e.path) == "objective"]
    c.floor(len(obs), 1, "evaluations", "objective evaluations of the initial reference set")
    tot = 0
    cons = {A.simp(e.ret) for e in q.calls("constraints")}

    def canonf(F):
        def f(a):
            p = infeasible_atom(a)
            if p is not None:
                return named("inf") if nd(p)[0] == "elem" and A.simp(nd(p)[1]) == pts else named("inf?", p)
            if a[0] == "is" and nd(a[1])[0] == "next" and any(nd(x)[0] == "agg" and nd(x)[1] in ("models::Take", "models::Skip", "models::StepBy")
                                                              for x in subterms(nd(a[1])[1])):
                return None         # a part of the points only
            if a[0] == "is" and (nd(a[1])[0] == "next" or nd(a[1])[0] == "call" and leafname(nd(a[1])[1]) in ("as_slice", "as_slice_memory_order")):
                return 1 if a[2] == "Some" else 0       # owned points are contiguous
            if a[0] == "exists" and canonf(a[2]) == 0:
                return 0
            return None
        return replace_atoms(F, f)
    roots = set()
    for e in obs:
        acc, comps, y = q.access(A.simp(e.args[1]))
        if acc is None or nd(acc)[0] == "call":
            continue
        roots.add(A.simp(nd(acc)[1]))
    c.need(roots, "set", "the initial reference set is evaluated as a collection", where)
    for root in roots:
        for path, n in mutations(A, q, root):
            c.ob(plain_leaf(path) not in REMOVERS, "kept", f"{plain_leaf(path)} removes points from the initial reference set", where)
        inc = 0
        todo, seen = [(root, 1, 0)], set()
        while todo:
            coll, F, d = todo.pop()
            if F == 0 or d > 6 or (coll, F) in seen:
                continue
            seen.add((coll, F))
            for x, p in q.elems(coll):
                x = A.simp(x)
                G = AND(F, q.pushguard(p) if p is not None else 1)
                if nd(x)[0] == "elem":
                    if A.simp(nd(x)[1]) == pts:
                        inc = OR(inc, canonf(G))
                    elif A.simp(nd(x)[1]) != coll:
                        todo.append((A.simp(nd(x)[1]), G, d + 1))
        empty = 1 if cons else 0
        for t in cons:
            empty = AND(empty, A.cond(binop("Eq", mk("call", "len", (t,), ""), const(0, "usize"), "usize")))
        need = AND(some(A, cp), OR(empty, NOT(named("inf"))))
        tot += 1
        c.ob(implies(AND(need, OR(NOT(empty), NOT(named("inf")))), inc), "included", "every feasible custom point becomes a member of the initial reference set", where)
    c.floor(tot, 1, "sets", "initial reference sets")
