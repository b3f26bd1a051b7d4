"""Stage 1: reference points within bounds, feasible, complete, best first."""
from fractions import Fraction
from lib import *


def is_constraints(t):
    return call_of(t, "constraints") is not None and nd(t)[0] == "call"


def point_of(t):
    """the point behind its slice view"""
    while True:
        a = None
        for nm in ("as_slice", "as_slice_memory_order", "to_vec", "as_ref", "to_slice", "deref", "as_standard_layout", "into_raw_vec", "view"):
            a = a or call_of(t, nm)
        if not a:
            return t
        t = a[0]


def infeasible_atom(a):
    """a = exists a constraint that is negative or NaN at the point -> the point"""
    if a[0] != "exists":
        return None
    doms = a[1]
    if len(doms) != 1 or not is_constraints(doms[0]):
        return None
    hit = []

    def sub(t):
        n = nd(t)
        if n[0] == "call" and "dyn-call" in n[1] and len(n[2]) >= 2:
            e = nd(n[2][0])
            if e[0] == "elem" and is_constraints(e[1]):
                hit.append(point_of(n[2][1]))
                return V_
        return None
    f = mapf(a[2], lambda t: rebuild(t, sub))
    zero = const("0.0", "f64")
    if len(set(hit)) != 1 or not equiv(f, OR(nan(V_), lt(V_, zero))):
        return None
    return hit[0]


class Scatter:
    """origins of the points of the reference set that Stage 1 returns (ScatterSearch::run) or that a resumed run adds
    (expand_reference_set)"""
    def __init__(self, c, entry="ScatterSearch::run"):
        self.c = c
        self.A = A = c.an(entry, ("observers",))
        self.q = q = Q(A)
        self.sets = []
        self.roots = []
        for f, v, r in returns(A, q):
            if nd(v)[0] == "agg" and nd(v)[2] == "Ok":
                if entry == "ScatterSearch::run":
                    pl = payload(v, "Ok")
                    self.sets.append((f, project(pl, "0"), project(pl, "1"), r))
                    self.roots += [project(mk("elem", A.simp(project(pl, "0")), "*"), "0"), project(pl, "1")]
                else:
                    self.roots.append(mk("elem", A.simp(A.read(A.sout[r], loc(2))), "*"))
        c.need(self.roots, "returns", f"{entry} returns Ok somewhere", "src/scatter_search.rs run")
        cons = {A.simp(e.ret) for e in q.calls("constraints")}
        self.cons = cons
        self.empty = 1 if cons else 0
        for t in cons:
            self.empty = AND(self.empty, A.cond(binop("Eq", mk("call", "len", (t,), ""), const(0, "usize"), "usize")))

    def constrained(self):
        """consider only problems with constraints"""
        self.q.ctx, self.q.ctxl = NOT(self.empty), frozenset(self.A.flow.loops)

    def place(self, p):
        return ", ".join(sorted({self.A.nodes[n].t[1]["fs"] if False else self.span(n) for n in self.q.pushnodes(p)})) if p else ""

    def span(self, n):
        for e in self.A.events():
            if e.node == n:
                return e.where()
        return ""

    def local_guard(self, n):
        hs = self.A.flow.inl[n]
        g = self.A.guard(n)
        for h in hs:
            g = AND(g, self.A.rel(h, n))
        return g

    # ---- a walk over the origins of a point: visit(term, push) -> True to stop there
    def walk(self, t, visit, fresh, seen=None, via=None, depth=0):
        q, A = self.q, self.A
        seen = set() if seen is None else seen
        for g, x in q.cases(t):
            if AND(g, q.ctx) == 0 or x == UNDEF or x in seen:
                continue
            seen.add(x)
            acc, comps, y = q.access(x)
            comps = comps[::-1]
            if acc is None:
                pk = nd(x)
                if pk[0] == "call" and leafname(pk[1]) in ("swap_remove", "remove") and is_pick(x):
                    acc, comps, y = x, [], x
            if nd(y)[0] == "phi" and nd(y)[1] == A.uid and nd(y)[2] in A.flow.loops and acc is None and not self.isarray(x):
                for v in q.ops(y).values():
                    if v != UNDEF:
                        z = unchain(A.simp(v), comps[::-1])
                        if z != UNDEF:
                            self.walk(z, visit, fresh, seen, via, depth + 1)
                continue
            if acc is not None:
                n = nd(acc)
                coll = n[1] if n[0] != "call" else n[2][0]
                el = q.elems(coll)
                if not (len(el) == 1 and nd(el[0][0])[0] == "elem" and nd(el[0][0])[1] == A.simp(coll)):
                    for v, p in el:
                        z = unchain(v, comps[::-1])
                        if z == UNDEF:
                            continue
                        if p is not None:
                            ns = q.pushnodes(p)
                            if ns and all(AND(self.local_guard(k), q.ctx) == 0 for k in ns):
                                continue
                        if not visit(z, p):
                            self.walk(z, visit, fresh, seen, p if p is not None else via, depth + 1)
                    continue
            fresh(x, via)

    def rootof(self, t):
        while nd(t)[0] in ("elem", "at"):
            t = nd(t)[1]
        return t

    def isarray(self, t):
        """a vector built by pushes of scalars in a loop (an array under construction)"""
        for x, p in self.q.elems(t):
            if nd(x)[0] == "elem" and nd(x)[2] == "*":
                return False
            return scalar(self.A, x)
        return False


def scalar(A, x):
    n = nd(x)
    if n[0] == "call":
        return leafname(n[1]) in ("random_range", "gen_range", "clamp", "min", "max", "sample", "random", "gen")
    if n[0] == "bin":
        return True
    if n[0] in ("elem", "at"):
        return which(n[1]) is not None
    return n[0] == "c"


def which(t):
    """t is the lower / upper bounds array -> 0 / 1"""
    n = nd(t)
    if n[0] == "fld" and n[2] in ("lower", "upper"):
        return ("lower", "upper").index(n[2])
    if n[0] == "call" and leafname(n[1]) == "column" and len(n[2]) == 2 and is_bounds(n[2][0]) and is_const(n[2][1]):
        return nd(n[2][1])[1]
    return None


def comp_of(t):
    """component of a bounds array: (0/1, position)"""
    n = nd(t)
    if n[0] in ("elem", "at"):
        w = which(n[1])
        if w is not None:
            return w, (("d", n[2]) if n[0] == "elem" else rowpos(n[2]))
        b = bound_of(t, is_bounds)
        if b is not None and b[0] in (0, 1):
            return b
    return None


UNIT = mk("sym", "unit")


def mix(t, base):
    """t as affine combination of the lower and the upper bound -> (coefficient, coefficient, constant) or None;
    base(t) -> 0 / 1 for the two bounds"""
    n = nd(t)
    w = base(t)
    if w is not None:
        return (Fraction(1 - w), Fraction(w), Fraction(0))
    if n[0] == "c":
        try:
            return (Fraction(0), Fraction(0), Fraction(str(n[1])))
        except (ValueError, OverflowError):
            return None
    op = None
    if n[0] == "bin":
        op, a, b = n[1].lower(), n[2], n[3]
    elif n[0] == "call" and leafname(n[1]) in ("add", "sub", "mul", "div", "midpoint") and len(n[2]) == 2:
        op, (a, b) = leafname(n[1]), n[2]
    if op is None:
        return None
    x, y = mix(a, base), mix(b, base)
    if x is None or y is None:
        return None
    if op in ("add", "addwithoverflow"):
        return tuple(p + q for p, q in zip(x, y))
    if op == "sub":
        return tuple(p - q for p, q in zip(x, y))
    if op == "midpoint":
        return tuple((p + q) / 2 for p, q in zip(x, y))
    if op == "mul":
        for k, z in ((x, y), (y, x)):
            if k[0] == k[1] == 0:
                return tuple(k[2] * p for p in z)
    if op == "div" and y[0] == y[1] == 0 and y[2] != 0:
        return tuple(p / y[2] for p in x)
    return None


def convex(m):
    return m is not None and m[2] == 0 and m[0] >= 0 and m[1] >= 0 and m[0] + m[1] == 1


class Within:
    """is a point (array term) within the bounds, component by component?"""
    def __init__(self, S):
        self.S, self.A, self.q = S, S.A, S.q
        self.why = ""

    def array(self, t, trail=()):
        A, q = self.A, self.q
        t = A.simp(t)
        if t in trail or len(trail) > 30:
            return t in trail
        trail = trail + (t,)
        if convex(mix(t, which)):
            return True
        n = nd(t)
        if n[0] == "upd" and len(n[2]) == 1 and not isinstance(n[2][0], str):
            return self.update(t, trail)
        if n[0] == "mut" and n[1] == A.uid:
            res, path, args, old, l = A.mutinfo[(n[2], n[3])]
            self.why = f"changed by {short(path)}"
            return False
        if n[0] == "phi" and n[1] == A.uid and n[2] not in A.flow.loops:
            return all(self.array(x, trail) for g, x in q.cases(t) if x != UNDEF and AND(g, q.ctx) != 0)
        el = q.elems(t)
        if el and not any(nd(x)[0] == "elem" and nd(x)[2] == "*" for x, _ in el):
            return all(self.scalar(x, None) for x, _ in el)
        self.why = f"{shown(t, 6)} is neither clamped to the bounds nor built from them"
        return False

    def update(self, t, trail):
        """every component rewritten by a loop over all positions, or a single component of an array within the bounds"""
        A, q = self.A, self.q
        n = nd(t)
        base, i, val = n[1], n[2][0][1], A.simp(n[3])
        nv = nd(val)
        if nv[0] == "phi" and nv[1] == A.uid and nv[2] in A.flow.loops:
            h = nv[2]
            back = [x for p, x in A.phi_ops(val).items() if (p, h) in A.flow.back]
            full = self.full(i, h)
            if back and all(self.value(x, i) for x in back):
                if full:
                    return True
                return self.array(base, trail)
            if not back or not full:
                return False
            return False
        return self.value(val, i) and self.array(base, trail)

    def full(self, i, h):
        """position i of loop h runs over every position of the array"""
        A = self.A
        ni = nd(A.simp(i))
        dom = None
        if ni[0] == "idx":
            dom = ni[1]
        elif ni[0] == "elem":
            dom = ni[1]
        if dom is None:
            return False
        d = nd(A.simp(dom))
        if d[0] == "agg" and "::ops::Range" in d[1]:
            lo, hi = A.simp(d[4][0]), A.simp(d[4][1])
            if not (is_const(lo) and nd(lo)[1] == 0):
                return False
            a = nd(hi)
            if not (a[0] == "call" and leafname(a[1]) in ("len", "ncols", "nrows", "raw_dim")):
                return False
        elif d[0] == "agg" and d[1] in ("models::Take", "models::Skip", "models::StepBy", "models::Filter"):
            return False
        # left only when the positions are exhausted
        body = A.flow.loops[h]
        for u in body:
            for v in A.flow.succ[u]:
                if v not in body and not self.exhausted(h, u, v):
                    return False
        return True

    def exhausted(self, h, u, v):
        A = self.A
        f = A.edge_cond(u, v)
        return f == 0 or any(a[0] == "is" and nd(a[1])[0] == "next" for a in atoms(f))

    def value(self, x, i):
        return self.scalar(x, i)

    def scalar(self, x, i, depth=0):
        """x lies between lower[i] and upper[i]"""
        A, q = self.A, self.q
        x = A.simp(x)
        n = nd(x)
        if depth > 12:
            return False
        pos = None if i is None else rowpos(A.simp(i))
        cs = q.cases(x)
        if len(cs) > 1:
            ok = True
            for g, y in cs:
                if AND(g, q.ctx) == 0:
                    continue
                ok = ok and (self.scalar(y, i, depth + 1) or self.guarded(g, y, pos))
            return ok
        if n[0] == "call":
            nm = leafname(n[1])
            if nm == "clamp" and len(n[2]) == 3:
                return self.two(n[2][1], n[2][2], pos)
            if nm in ("min", "max") and len(n[2]) == 2:
                for a, b in ((n[2][0], n[2][1]), (n[2][1], n[2][0])):
                    o = comp_of(a)
                    m = nd(A.simp(b))
                    if o and o[0] == (1 if nm == "min" else 0) and m[0] == "call" and leafname(m[1]) == ("max" if nm == "min" else "min"):
                        for z in m[2]:
                            o2 = comp_of(z)
                            if o2 and o2[0] == 1 - o[0] and o2[1] == o[1] and (pos is None or o[1] == pos):
                                return True
            if nm in ("random_range", "gen_range") and len(n[2]) == 2:
                r = nd(A.simp(n[2][1]))
                ab = r[4] if r[0] == "agg" else r[2] if r[0] == "call" else ()
                return len(ab) >= 2 and self.two(ab[0], ab[1], pos)
            if nm in ("sample",):
                return False
        rows = set()

        def base(t):
            o = comp_of(t)
            if o is None:
                return None
            rows.add(o[1])
            return o[0]
        if convex(mix(x, base)) and len(rows) == 1 and (pos is None or pos in rows):
            return True
        if self.interp(x, pos):
            return True
        self.why = f"component {shown(x, 6)} is not confined to the bounds of its position"
        return False

    def interp(self, x, pos):
        """lower + u * (upper - lower) with u drawn from [0, 1)"""
        A = self.A
        n = nd(x)
        if not (n[0] == "bin" and n[1] == "Add"):
            return False
        for a, b in ((n[2], n[3]), (n[3], n[2])):
            o, m = comp_of(a), nd(A.simp(b))
            if o and o[0] == 0 and m[0] == "bin" and m[1] == "Mul":
                for u, w in ((m[2], m[3]), (m[3], m[2])):
                    nu, nw = nd(A.simp(u)), nd(A.simp(w))
                    unit = nu[0] == "call" and (leafname(nu[1]) in ("random", "gen") and len(nu[2]) == 1 or
                                                leafname(nu[1]) in ("random_range", "gen_range") and self.unitrange(nu[2][1]))
                    if unit and nw[0] == "bin" and nw[1] == "Sub":
                        h, l = comp_of(nw[2]), comp_of(nw[3])
                        if h and l and h[0] == 1 and l[0] == 0 and h[1] == l[1] == o[1] and (pos is None or pos == o[1]):
                            return True
        return False

    def unitrange(self, t):
        r = nd(self.A.simp(t))
        ab = r[4] if r[0] == "agg" else r[2] if r[0] == "call" else ()
        return len(ab) >= 2 and all(is_const(z) for z in ab[:2]) and float(nd(ab[0])[1]) >= 0 and float(nd(ab[1])[1]) <= 1

    def two(self, lo, hi, pos):
        a, b = comp_of(self.A.simp(lo)), comp_of(self.A.simp(hi))
        return bool(a and b and a[0] == 0 and b[0] == 1 and a[1] == b[1] and (pos is None or a[1] == pos))

    def guarded(self, g, y, pos):
        """the branch taken says lower <= y <= upper"""
        los, his = set(), set()
        for a in atoms(g):
            if a[0] in ("lt", "eq") and a[3] == "f":
                for t in (a[1], a[2]):
                    o = comp_of(t)
                    if o and (pos is None or o[1] == pos):
                        (los if o[0] == 0 else his).add(t)
        return any(implies(g, NOT(lt(y, lo))) and implies(g, NOT(lt(hi, y))) for lo in los for hi in his)


def given(S, x):
    """points that were in the set before, or supplied by the user (validated there: C29)"""
    fp = fieldpath(S.rootof(x))
    return bool(fp and (set(fp) & {"reference_set", "custom_points"} or fp[-1] == "ref_set"))


ENTRIES = ("ScatterSearch::run", "OQNLP::<P>::expand_reference_set")


@rule("C11", ("all", "nodefault"))
def within(c):
    """every reference point is a bound, a mix of the bounds, drawn between them component by component, or clamped to them as a whole"""
    for entry in ENTRIES:
        if entry != ENTRIES[0] and c.cfg == "nodefault":
            continue
        S = Scatter(c, entry)
        W = Within(S)
        n, seen = [0], set()

        def fresh(x, via):
            n[0] += 1
            if given(S, x):
                return
            ok = W.array(x)
            c.ob(ok, f"point:{shown(x, 3)[:60]}", f"reference point {shown(x, 5)[:200]} lies within the bounds" + ("" if ok else ": " + W.why),
                 S.place(via))
        for t in S.roots:
            S.walk(t, lambda x, p: False, fresh, seen)
        c.floor(n[0], 3 if entry == ENTRIES[0] else 1, "points", f"origins of reference points in {entry}")


@rule("C12", ("all", "nodefault"))
def feasible(c):
    """with constraints, a point reaches the reference set only through a test that every constraint is non-negative (and not NaN) at it"""
    for entry in ENTRIES:
        if entry != ENTRIES[0] and c.cfg == "nodefault":
            continue
        S = Scatter(c, entry)
        A, q = S.A, S.q
        c.need(S.cons, "constraints", "the constraints of the problem are read", "src/scatter_search.rs")
        S.constrained()
        n, seen = [0], set()

        def tested(x, p):
            x = A.simp(x)
            ns = q.pushnodes(p) if p is not None else ()
            if not ns:
                return False
            for k in ns:
                f = replace_atoms(S.local_guard(k), lambda a: named("infeasible", A.simp(infeasible_atom(a))) if infeasible_atom(a) else None)
                if not implies(AND(f, q.ctx), NOT(named("infeasible", x))):
                    return False
            n[0] += 1
            c.ob(True, f"tested:{shown(x, 3)[:60]}", f"{shown(x, 5)[:160]} is added behind the test of all constraints", S.place(p))
            return True

        def fresh(x, via):
            if given(S, x) and "custom_points" not in (fieldpath(S.rootof(x)) or ()):
                return
            c.ob(False, f"untested:{shown(x, 3)[:60]}", f"{shown(x, 5)[:200]} enters the reference set of a constrained problem without the test of all its "
                 "constraints", S.place(via))
        for t in S.roots:
            S.walk(t, tested, fresh, seen)
        c.floor(n[0], 1, "tests", f"feasibility tests in {entry}")


def order_of(c, clo):
    """a comparison function -> (path of the compared component, ascending?) or None"""
    n = nd(clo)
    if n[0] in ("item", "fn") or (n[0] == "c" and "total_cmp" in str(n[1])):
        return ((), True) if any("total_cmp" in str(x) or "partial_cmp" in str(x) for x in n[1:]) else None
    local = c.fn(short(n[1]), optional=True) if n[0] == "fnitem" and "total_cmp" not in n[1] and "partial_cmp" not in n[1] else None
    if n[0] == "fnitem" and local is None:
        return ((), True) if leafname(n[1]) in ("total_cmp", "partial_cmp", "cmp") else None
    if n[0] != "agg" and local is None:
        return None
    C = c.an(n[1], ())
    kinds = set()
    for g, v, r in returns(C, Q(C)):
        kinds.add(compare(C, C.simp(v)))
    return kinds.pop() if len(kinds) == 1 else None


def compare(C, v):
    n = nd(v)
    if n[0] == "call" and leafname(n[1]) == "reverse" and n[2]:
        o = compare(C, n[2][0])
        return o and (o[0], not o[1])
    a = call_of(v, "total_cmp") or call_of(v, "partial_cmp") or call_of(v, "cmp")
    if a is None and n[0] == "call" and leafname(n[1]) in ("unwrap_or", "unwrap", "expect"):
        return compare(C, n[2][0])
    if a is None or len(a) != 2:
        return None
    paths = []
    for t in a:
        b, comps = chain(C.simp(t))
        if nd(b)[0] != "arg":
            return None
        k = nd(b)[1]
        if k == 2 and nd(b) == nd(C.argterm(2)) and comps and False:
            return None
        paths.append((k, tuple(x for x in comps if not x.startswith("#"))))
    if {k for k, _ in paths} not in ({1, 2}, {2, 3}) or paths[0][1] != paths[1][1]:
        return None
    return paths[0][1], paths[0][0] < paths[1][0]


def least(c, S, x, depth=0):
    """x is the reference point of least objective -> None, or what is wrong"""
    A, q = S.A, S.q
    x = A.simp(x)
    bad = []
    for g, y in q.cases(x):
        if y == UNDEF:
            continue
        acc, comps, full = q.access(y)
        n = nd(y)
        if n[0] == "at":
            P = n[1]
            for i in q.leaves(n[2]):
                a2, c2, f2 = q.access(i)
                if a2 is not None and is_pick(a2) and leafname(nd(a2)[1]) == "min_by":
                    it, cmpf = nd(a2)[2][0], nd(a2)[2][1]
                    o = order_of(c, cmpf)
                    e = nd(A.simp(it))
                    if o is None or not o[1] or e[0] != "agg" or e[1] != "models::Enumerate" or o[0] != ("1",) or c2 != ["0"]:
                        bad.append(f"{shown(i, 5)} is not the position of the least objective")
                    elif not q.vec_paired(P, e[4][0]):
                        bad.append(f"{shown(e[4][0], 4)} does not hold the objectives of {shown(P, 4)}")
                elif not argmin(A, q, P, i):
                    bad.append(f"{shown(i, 5)} is not the position of the least objective")
        elif acc is not None and is_pick(acc) and leafname(nd(acc)[1]) == "min_by":
            it, cmpf = nd(acc)[2][0], nd(acc)[2][1]
            o = order_of(c, cmpf)
            if o is None or not o[1] or not o[0]:
                bad.append(f"{shown(y, 5)} does not take the least objective")
                continue
            for e, p in q.elems(it):
                if not q.pair_ok(unchain(e, comps), unchain(e, list(o[0]))):
                    bad.append(f"the compared value is not the objective of the point in {shown(e, 5)}")
        else:
            bad.append(f"{shown(y, 6)} is not chosen by its objective")
    return bad


def argmin(A, q, P, i):
    """i is kept by a loop over the objectives of P that moves it to every smaller objective"""
    n = nd(i)
    if not (n[0] == "phi" and n[1] == A.uid and n[2] in A.flow.loops):
        return False
    h = n[2]
    for (hh, k), ops in list(A.phis.items()):
        if hh != h:
            continue
        m = mk("phi", A.uid, h, k)
        if m == i:
            continue
        ok, upd = True, False
        for p, v in A.phi_ops(i).items():
            if (p, h) not in A.flow.back:
                continue
            w = A.phi_ops(m).get(p)
            for g, a in q.cases(v):
                for g2, b in q.cases(w) if w is not None else ():
                    f = AND(g, g2)
                    if f == 0:
                        continue
                    pa, pb = A.simp(a) == i, A.simp(b) == m
                    if pa and pb:
                        continue
                    na, pos = nd(A.simp(a)), q.position(A.simp(b))
                    if pa or pb or not pos or not q.vec_paired(P, pos[0]) or na[0] not in ("idx", "elem") or na[2] != pos[1]:
                        ok = False
                        continue
                    f = AND(f, A.rel(h, p))
                    if not (implies(f, lt(A.simp(b), m)) or any(
                            x[0] == "is" and x[2] == "Less" and call_of(x[1], "total_cmp") and
                            tuple(map(A.simp, call_of(x[1], "total_cmp"))) == (A.simp(b), m) and implies(f, B.var(x)) for x in atoms(f))):
                        ok = False
                    else:
                        upd = True
        if ok and upd:
            return True
    return False


@rule("C31", ("all", "nodefault"))
def first_search(c):
    """the point Stage 1 hands on is the reference point whose objective is least, and the first local search starts from it"""
    S = Scatter(c)
    n = 0
    for f, rs, best, r in S.sets:
        with S.q.under(r, f):
            bad = least(c, S, best)
            n += 1
            c.ob(not bad, "least", "the best point returned by Stage 1 is the reference point of least objective" +
                 ("" if not bad else ": " + "; ".join(bad)), "src/scatter_search.rs best_solution")
            doms = {nd(a)[1] for x, p in S.q.elems(rs) for a in [S.q.access(field(x, "0"))[0]] if a is not None and nd(a)[0] == "elem"}
            for g, y in S.q.cases(S.A.simp(best)):
                if nd(y)[0] == "at" and doms:
                    c.ob(nd(y)[1] in doms, "of-final-set", "the best point is taken from the reference set that is handed on, not from an earlier one",
                         "src/scatter_search.rs run")
    from runlib import Run
    R = Run(c)
    A, q = R.A, R.q
    for e in R.stage1:
        for t, g in q.origins(A.simp(e.args[1])):
            b, comps = chain(t)
            b2 = nd(b)
            ok = b2[0] == "call" and "ScatterSearch" in b2[1] and leafname(b2[1]) == "run" and [x for x in comps if not x.startswith("#")] == ["0", "1"]
            c.ob(ok, "start", f"the first local search starts from the best point of Stage 1: {shown(t, 6)}", e.where())
            n += 1
    c.floor(n, 2, "first", "best points handed on")


END = "end"


def canon(A, t):
    """smaller and larger of two numbers, however they are written"""
    def f(x):
        n = nd(x)
        if n[0] == "call" and leafname(n[1]) in ("min", "max", "clamp") and n[1] != leafname(n[1]):
            a = [canon(A, y) for y in n[2]]
            if leafname(n[1]) == "clamp":
                return mk("call", "min", tuple(sorted((mk("call", "max", tuple(sorted(a[:2])), ""), a[2]))), "")
            return mk("call", leafname(n[1]), tuple(sorted(a)), "")
        return None
    return rebuild(A.simp(t), f)


def lin(A, t):
    """an integer term as a sum: {term: factor}, constant"""
    def go(t, f, out):
        t = A.simp(t)
        n = nd(t)
        if n[0] == "c" and isinstance(n[1], int):
            out[None] = out.get(None, 0) + f * n[1]
        elif n[0] == "bin" and n[1] in ("Add", "Sub"):
            go(n[2], f, out)
            go(n[3], f if n[1] == "Add" else -f, out)
        else:
            out[t] = out.get(t, 0) + f
    out = {}
    go(canon(A, t), 1, out)
    return frozenset((k, v) for k, v in out.items() if v)


def plus(a, b, k=0):
    out = dict(a)
    for t, f in list(b) + [(None, k)]:
        out[t] = out.get(t, 0) + f
    return frozenset((k, v) for k, v in out.items() if v)


ZERO = frozenset()


class Order:
    """what is known of the order of a vector: `marks`, positions such that nothing before is greater than anything after; `runs`, intervals
    sorted ascending; `key`, the compared component"""

    def __init__(self, marks=(ZERO, END), runs=(), key=None):
        self.marks, self.runs, self.key = frozenset(marks), frozenset(runs), key

    def sorted_to(self, k, upto):
        return any(a == ZERO and b in self.marks and upto(k, b) for a, b in self.runs)

    def is_mark(self, n, upto):
        return n in self.marks or self.sorted_to(n, upto)


def slice_of(A, i):
    """index term -> (start, end) of a slice, or None"""
    n = nd(A.simp(i))
    if n[0] != "agg":
        return None
    l = n[1].split("::")[-1]
    if l == "RangeTo":
        return ZERO, lin(A, n[4][0])
    if l == "RangeFrom":
        return lin(A, n[4][0]), END
    if l == "Range":
        return lin(A, n[4][0]), lin(A, n[4][1])
    if l == "RangeFull":
        return ZERO, END
    return None


def arrangements(c, A, q, t, F=1, depth=0):
    """[(condition, Order)] for vector t"""
    t = A.simp(t)
    n = nd(t)
    if depth > 40 or not sat(F):
        return [(F, Order())] if sat(F) else []
    if n[0] == "phi" and n[1] == A.uid and n[2] not in A.flow.loops:
        out = []
        for g, x in q.cases(t):
            if A.simp(x) == t:
                return [(F, Order())]
            out += arrangements(c, A, q, x, AND(F, g), depth + 1)
        return out
    if n[0] == "upd" and len(n[2]) == 1 and not isinstance(n[2][0], str):
        s = slice_of(A, n[2][0][1])
        out = []
        for g, x in (q.cases(n[3]) if s else ()):
            v, H = nd(A.simp(x)), AND(F, g)
            if v[0] == "mut" and v[1] == A.uid:
                res, path, args, old, l = A.mutinfo[(v[2], v[3])]
                out += [(G, step(c, A, o, leafname(path), args, s, G)) for G, o in arrangements(c, A, q, n[1], H, depth + 1)]
            elif v[0] == "at" and slice_of(A, v[2]) == s:
                out += arrangements(c, A, q, n[1], H, depth + 1)
            elif sat(H):
                out.append((H, Order()))
        return out or [(F, Order())]
    if n[0] == "mut" and n[1] == A.uid:
        res, path, args, old, l = A.mutinfo[(n[2], n[3])]
        nm = leafname(path)
        if nm in ("reserve", "shrink_to_fit", "reserve_exact"):
            return arrangements(c, A, q, old, F, depth + 1)
        s, x = (ZERO, END), nd(A.simp(old))
        if x[0] == "at" and slice_of(A, x[2]):
            s, old = slice_of(A, x[2]), x[1]
        return [(g, step(c, A, o, nm, args, s, g)) for g, o in arrangements(c, A, q, old, F, depth + 1)]
    return [(F, Order())]


def step(c, A, o, nm, args, s, F):
    if nm == "truncate":
        n = lin(A, args[1])
        return Order(o.marks, o.runs | {(x, END) for x, y in o.runs if y == n}, o.key)
    a, b = s
    # positions and sorted stretches outside of what is reordered stay
    marks = {m for m in o.marks if upto(A, F, m, a) or upto(A, F, b, m)}
    runs = {r for r in o.runs if upto(A, F, r[1], a) or upto(A, F, b, r[0])}
    k = args[-1] if nm.startswith(("sort", "select")) else None
    key = order_of(c, A.simp(k)) if k is not None and nm in ("sort_by", "sort_unstable_by", "select_nth_unstable_by") else None
    if key is None or not key[1] or not key[0] or (o.key is not None and o.key != key[0]):
        return Order()
    whole = a in marks and b in marks
    if nm.startswith("sort"):
        runs.add((a, b))
    elif whole:
        j = plus(a, lin(A, args[1]))
        marks |= {j, plus(j, ZERO, 1)}
    return Order(marks, runs, key[0])


def upto(A, F, n, b, q=None):
    """position n is at most position b under F"""
    if n == b or b == END or n == ZERO:
        return True
    if n == END:
        return False
    x, y = single(n), single(b)
    F = mapatoms(F, lambda a: atom_of(A, a, lambda t: canon(A, t) if nd(t)[0] == "call" and leafname(nd(t)[1]) in ("min", "max", "clamp") else None))
    if q is not None and (x is None or nd(x)[0] != "phi") and y is not None and nd(y)[0] == "phi":
        return all(upto(A, AND(F, g), n, lin(A, v)) for g, v in q.cases(y) if sat(AND(F, g)))
    return x is not None and y is not None and (within_bound(A, x, y) or implies(F, NOT(gt(x, y))))


def atom_of(A, a, fn):
    """the formula of atom a with its terms replaced"""
    if a[0] in ("lt", "eq") and a[3] == "i":
        x, y = (rebuild(t, fn) for t in a[1:3])
        return A.cond(binop("Lt" if a[0] == "lt" else "Eq", x, y, "usize"))
    return B.var(a)


def single(n):
    """the term of a position, if it is one"""
    if len(n) == 1:
        (t, f), = n
        if f == 1 and t is not None:
            return t
    return None


def gt(a, b):
    eq = B.var(("eq",) + tuple(sorted((a, b))) + ("i",))
    if b < a:
        return AND(NOT(eq), B.var(("lt", b, a, "i")))
    return AND(NOT(eq), NOT(B.var(("lt", a, b, "i"))))


def within_bound(A, k, n):
    k, n = A.simp(k), A.simp(n)
    if k == n:
        return True
    x = nd(k)
    return x[0] == "call" and leafname(x[1]) == "min" and n in [A.simp(z) for z in x[2]]


class Cut:
    """a list of which only the first elements are used"""

    def __init__(self, A, h, v, k):
        self.node, self.args, self.path, self.place = h, [v, k], "take", A.nodes[h].ctx.body.path

    def where(self):
        return "in " + short(self.place)


def cuts(S):
    from seqs import Seqs
    A, q = S.A, S.q
    out = [e for e in A.events() if leafname(e.path) == "truncate" and A.guard(e.node) != 0 and "Vec" in e.path]
    X = Seqs(A, q)
    for h in A.flow.loops:
        for d in X.own(h) if A.guard(h) != 0 else ():
            n = nd(d)
            if n[0] == "agg" and n[1] == "models::Take":
                v = nd(A.simp(n[4][0]))
                if v[0] in ("mut", "upd", "phi") and (fieldpath(A.simp(n[4][1])) or ("",))[-1] == "population_size":
                    out.append(Cut(A, h, n[4][0], n[4][1]))
    return out


@rule("C32", ("all", "nodefault"))
def keeps_best(c):
    """the reference set is cut only after the points to keep were brought to the front by objective; a trial is refused for its objective
    only against the worst reference point; combinations use the front of the sorted set"""
    S = Scatter(c)
    A, q = S.A, S.q
    n = 0
    # cuts
    for e in cuts(S):
        n += 1
        v, k = e.args[0], A.simp(e.args[1])
        at = lin(A, k)
        good, keys = True, set()
        for F, o in arrangements(c, A, q, v, A.guard(e.node)):
            good = good and o.is_mark(at, lambda x, y: upto(A, F, x, y))
            keys.add(o.key)
        good = good and len(keys) == 1 and None not in keys
        if good:
            with q.under(e.node):
                for x, p in q.elems(v):
                    good = good and q.pair_ok(field(x, "0"), unchain(x, list(list(keys)[0])))
        c.ob(good, "cut", f"the reference set is cut to {shown(k, 5)} after its best points were brought to the front", e.where())
        c.ob(fieldpath(k) is not None and fieldpath(k)[-1] == "population_size", "cut:size", f"the set keeps population_size points: {shown(k, 5)}", e.where())
        left_behind(c, S, e, k)
        merged(c, S, e)
    c.floor(n, 1, "cuts", "cuts of the reference set")
    # trials
    m = 0
    for e in q.calls("push"):
        v = A.simp(e.raw[1])
        x = nd(v)
        if x[0] == "agg" and len(x[4]) == 2 and call_of(A.simp(x[4][1]), "objective") is not None:
            obj = A.simp(x[4][1])
            g = S.local_guard(e.node)
            cmps = [a for a in atoms(g) if a[0] in ("lt", "eq") and a[3] == "f" and obj in (a[1], a[2])]
            for a in cmps:
                o = a[2] if a[1] == obj else a[1]
                worst = all(is_worst(A, q, w) for w in q.leaves(o))
                c.ob(worst, "trial:against", f"a trial's objective is compared with the worst reference point only: {shown(o, 6)}", e.where())
                m += 1
                ev = [y for y in A.events() if A.simp(payload(y.ret, "Ok")) == obj and A.flow.inl[y.node][:1] == A.flow.inl[e.node][:1]]
                if worst and ev and a[0] == "lt" and a[1] == obj and A.flow.inl[ev[0].node]:
                    h = A.flow.inl[ev[0].node][0]
                    good = AND(A.rel(h, ev[0].node), A.isvar(ev[0].ret, "Ok", ["Ok", "Err"]), lt(obj, o))
                    c.ob(implies(good, A.rel(h, e.node)), "trial:kept", "an evaluated trial better than the worst reference point is kept", e.where())
                if a[0] == "lt" and a[1] == obj:
                    c.ob(implies(g, lt(obj, o)), "trial:better", "a trial is kept only when its objective is below that of the worst reference point", e.where())
    # initial order
    for t in trial_parents(A, q):
        for x, p in q.elems(t):
            acc, comps, full = q.access(x)
            if acc is None or nd(acc)[0] != "elem":
                c.ob(given(S, x), "sorted", f"combined points come from the sorted set: {shown(x, 5)}")
                continue
            if given(S, x):
                continue
            src = nd(A.simp(nd(acc)[1]))
            ok = False
            if src[0] == "mut" and src[1] == A.uid:
                res, path, args, old, l = A.mutinfo[(src[2], src[3])]
                o = order_of(c, A.simp(args[1])) if leafname(path) in ("sort_by", "sort_unstable_by") else None
                ok = bool(o and o[1] and o[0] == ("1",))
            c.ob(ok, "sorted", f"the set whose front is combined was sorted by objective: {shown(full, 5)}", "src/scatter_search.rs initialize_reference_set")
            m += 1
    c.floor(m, 2, "trials", "trial comparisons and sorted sets")


def left_behind(c, S, e, k):
    """the set an update leaves starts with its best points in order, as many as are combined, and ends with its worst point"""
    A, q = S.A, S.q
    cut = [(x, kk) for (x, kk), m in A.mutinfo.items() if x == e.node and e.path != "take"]

    def before(t):
        """the vectors a reordered one was made from"""
        out, work = set(), [t]
        while work:
            t = A.simp(work.pop())
            if t in out:
                continue
            out.add(t)
            n = nd(t)
            if n[0] == "mut" and n[1] == A.uid:
                work.append(A.mutinfo[(n[2], n[3])][3])
            elif n[0] == "upd" or n[0] == "at":
                work.append(n[1])
                if n[0] == "upd":
                    work.append(n[3])
            elif n[0] == "phi" and n[1] == A.uid and n[2] not in A.flow.loops:
                work += list(A.phi_ops(t).values())
        return out
    T = [mk("mut", A.uid, x, kk) for x, kk in cut]
    later = {}
    for (x, kk) in A.mutinfo:
        t = mk("mut", A.uid, x, kk)
        if t in T or A.guard(x) == 0 or leafname(A.mutinfo[(x, kk)][1]) in ("clear", "drain", "take", "replace", "swap", "next"):
            continue
        bs = before(t)
        if any(y in bs for y in T):
            later[t] = bs
    ends = [(t, nd(t)[2]) for t in later if not any(t in bs for u, bs in later.items() if u != t)] or [(t, e.node) for t in T] or [(e.args[0], e.node)]
    fronts = front_sizes(c, S)
    for t, node in ends:
        for F, o in arrangements(c, A, q, t, A.guard(node)):
            up = lambda x, y: upto(A, F, x, y)
            if not T:
                o = step(c, A, o, "truncate", e.args, (ZERO, END), F)
            for base, hi in fronts:
                good = True

                def as_left(s):
                    return A.simp(k) if nd(s)[0] == "call" and nd(s)[1] == "len" and A.simp(nd(s)[2][0]) == base else None
                for g, x in q.cases(hi):
                    G = AND(F, mapatoms(g, lambda a: atom_of(A, a, as_left)))
                    if sat(G):
                        good = good and o.sorted_to(lin(A, rebuild(x, as_left)), lambda x, y: upto(A, G, x, y, q))
                c.ob(good, "left:front", f"the best points, as many as are combined, are at the front of the set left behind: {shown(hi, 6)}", e.where())
            n = lin(A, k)
            c.ob(plus(n, ZERO, -1) in o.marks or o.sorted_to(n, up) or any(a in o.marks and b == END for a, b in o.runs), "left:last",
                 "the worst point is the last of the set left behind", e.where())


def front_sizes(c, S):
    """(set, number of points at its front that are combined)"""
    A, q = S.A, S.q
    out = set()
    for e in A.events():
        if leafname(e.path) != "mul" or A.guard(e.node) == 0:
            continue
        for a in e.args:
            x = nd(A.simp(a))
            if x[0] != "at" or not fieldend(x[1], "reference_set"):
                continue
            with q.under(e.node):
                i = nd(A.simp(x[2]))
                if i[0] == "fld" and nd(i[1])[0] == "elem":
                    ys = [A.simp(field(y, i[2])) for y, p in q.elems(nd(i[1])[1])]
                else:
                    ys = [A.simp(x[2])]
            for y in ys:
                d = nd(A.simp(nd(y)[1])) if nd(y)[0] in ("elem", "idx") else ("",)
                if d[0] == "agg" and d[1].endswith("::Range"):
                    lo = A.simp(d[4][0])
                    out.add((A.simp(x[1]), A.simp(d[4][1]), is_const(lo) and nd(lo)[1] == 0, e.where()))
                else:
                    c.ob(False, "front", f"a combined point is one of the front of the set: position {shown(y, 5)}", e.where())
    for b in {b for b, hi, z, w in out}:
        w = min(w for b_, hi, z, w in out if b_ == b)
        c.ob(any(z for b_, hi, z, w in out if b_ == b), "front:best", "the first point of the set is combined with the others", w)
    return {(b, hi) for b, hi, z, w in out}


def merged(c, S, e):
    """everything collected before the cut is there when the set is cut, and the cut is only left out when there is no trial to merge"""
    from seqs import Seqs
    A, q = S.A, S.q
    X = Seqs(A, q)
    v = A.simp(e.args[0])
    feeds, seen = [], set()
    work = [v]
    while work:
        v = A.simp(work.pop())
        if v in seen:
            continue
        seen.add(v)
        n = nd(v)
        if n[0] == "mut" and n[1] == A.uid:
            work.append(A.mutinfo[(n[2], n[3])][3])
        elif n[0] == "upd":
            work.append(n[1])
        elif n[0] == "phi" and n[1] == A.uid:
            h = n[2]
            if h not in A.flow.loops:
                work += list(A.phi_ops(v).values())
                continue
            back = [A.simp(o) for p, o in A.phi_ops(v).items() if (p, h) in A.flow.back]
            work += [o for p, o in A.phi_ops(v).items() if (p, h) not in A.flow.back]
            back = [x for o in back for x in joined(A, o)]
            if any(nd(o)[0] in ("mut", "push") for o in back):
                feeds.append((h, v, back))
    feeding = {v: h for h, v, b in feeds}
    empty = [v for v in seen if nd(v)[0] == "phi" and v not in feeding and nd(v)[2] not in A.flow.loops
             and {bool(_grown(A, o, feeding)) for o in A.phi_ops(v).values()} == {True, False}]
    c.ob(not empty, "merge:dropped", "the points collected are not thrown away on any path", e.where())
    for h, v, back in feeds:
        where = e.where()
        doms = X.own(h)
        cut = [d for d in doms if nd(d)[0] == "agg" and nd(d)[1] in ("models::Take", "models::Skip", "models::StepBy", "models::TakeWhile")]
        c.ob(not cut, "merge:whole", f"all points are merged: {shown(cut[0], 4) if cut else ''}", where)
        if doms:
            left = OR(*X.exits(h).values())
            c.ob(implies(left, X.done(h)), "merge:complete", "the merging loop goes through all points", where)
        objs = [x for x in A.events() if x.node in A.flow.loops[h] and leafname(x.path) == "objective"]
        if not objs and doms:
            c.ob(all(o != v for o in back), "merge:each", "every point is merged", where)
    trials = [x for x in A.phis if x[0] in A.flow.loops]
    tv = {mk("phi", A.uid, n_, k) for n_, k in trials
          if any(x.node in A.flow.loops[n_] and leafname(x.path) == "objective" for x in A.events())}
    doms = {d for t in tv for d in X.own(nd(t)[2])}
    G = A.guard(e.node)
    for f, rs, best, r in S.sets:
        F = AND(f, NOT(G))
        if not sat(F):
            continue
        none = 0
        for a in atoms(F):
            if a[0] == "eq" and a[3] == "i":
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if nd(x)[0] == "call" and nd(x)[1] == "len" and nd(y)[0] == "c" and nd(y)[1] == 0 and \
                            (A.simp(nd(x)[2][0]) in doms or all(l in tv or l in doms for l in joined(A, nd(x)[2][0]))):
                        none = OR(none, B.var(a))
        c.ob(implies(F, none), "merge:always", "trials are merged into the set whenever there are any", e.where())


def _grown(A, t, feeding, d=0):
    """some loop pushed into t"""
    t = A.simp(t)
    n = nd(t)
    if t in feeding:
        return True
    if d > 30:
        return True
    if n[0] == "mut" and n[1] == A.uid:
        if leafname(A.mutinfo[(n[2], n[3])][1]) == "clear":
            return False
        return _grown(A, A.mutinfo[(n[2], n[3])][3], feeding, d + 1)
    if n[0] == "upd":
        return _grown(A, n[1], feeding, d + 1)
    if n[0] == "phi" and n[1] == A.uid and n[2] not in A.flow.loops:
        return any(_grown(A, o, feeding, d + 1) for o in A.phi_ops(t).values())
    return not (n[0] == "call" and leafname(n[1]) in ("new", "with_capacity", "default"))


def joined(A, t):
    """the vectors joined in t, loops not unrolled"""
    t = A.simp(t)
    n = nd(t)
    if n[0] == "phi" and n[1] == A.uid and n[2] not in A.flow.loops:
        return {x for o in A.phi_ops(t).values() for x in joined(A, o)}
    return {t}


def is_worst(A, q, w):
    if is_const(w):
        return str(nd(w)[1]).lower().endswith(("inf", "infinity"))
    a = call_of(w, "last")
    n = nd(w)
    v = a[0] if a else None
    if v is None and n[0] == "at":
        v = n[1]
        i = A.simp(n[2])
        if i != A.simp(binop("Sub", mk("call", "len", (v,), ""), const(1, "usize"), "usize")):
            return False
    return v is not None and (fieldend(A.simp(v), "reference_set_objectives"))


def fieldend(t, name):
    n = nd(t)
    return (n[0] == "fld" and n[2] == name) or (n[0] == "phi" and n[3][-1] == name)


def trial_parents(A, q):
    """the vectors that the combined points are taken from"""
    out = set()
    for e in A.events():
        if leafname(e.path) in ("add", "mul", "sub") and A.guard(e.node) != 0:
            for a in e.args:
                x = nd(A.simp(a))
                if x[0] in ("at", "elem") and not is_const(x[1]):
                    b = x[1]
                    if fieldend(b, "reference_set"):
                        out.add(b)
    return out
