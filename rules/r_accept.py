"""Acceptance of local solutions (process_local_solution), out-of-bounds exclusion, target test."""
from lib import *

OBS = ("observers",)


def entry(c):
    A = c.an("OQNLP::<P>::process_local_solution", OBS)
    q = Q(A)
    self_, sol = arg(A, 1), arg(A, 2)
    pt = field(sol, "point")

    def canon(f):
        def r(a):
            if oob_atom(a, lambda t: t == pt) is not None:
                return named("oob")
            d = dup_atom(a, self_, pt)
            if d:
                return named("dup")
            return None
        return replace_atoms(f, r)
    return A, q, self_, sol, canon


def dup_atom(a, self_, pt):
    """exists s in the current set: |p - s|^2 < distance_factor^2"""
    if a[0] != "exists" or len(a[1]) != 1:
        return False
    dom = a[1][0]
    if dom != setvec(self_):
        return False
    e = mk("elem", dom, a[3])
    from gsa import canon_call
    d2 = mk("call", "dist2", tuple(sorted((pt, field(e, "point")))), "")
    df = field(self_, "params", "distance_factor")
    return equiv(a[2], lt(d2, binop("Mul", df, df, "f64")), (d2,))


def setvec(self_):
    return field(payload(field(self_, "solution_set")), "solutions")


def acceptance(A, self_, sol):
    """the documented case split, over canonical atoms"""
    o1 = field(sol, "objective")
    o2 = field(project(setvec(self_), ("[]", const(0, "usize"))), "objective")
    tol = f64call("max", field(self_, "abs_tol"),
                  binop("Mul", field(self_, "rel_tol"), f64call("max", f64call("abs", o1), f64call("abs", o2)), "f64"))
    diff = f64call("abs", binop("Sub", o1, o2, "f64"))
    oob = AND(A.cond(field(self_, "exclude_out_of_bounds")), named("oob"))
    first = AND(NOT(oob), NOT(some(A, field(self_, "solution_set"))))
    rest = AND(NOT(oob), some(A, field(self_, "solution_set")))
    better = AND(rest, lt(o1, binop("Sub", o2, tol, "f64")))
    sim = AND(rest, NOT(lt(o1, binop("Sub", o2, tol, "f64"))), le(diff, tol))
    return oob, first, better, AND(sim, NOT(named("dup"))), AND(sim, named("dup")), \
        AND(rest, NOT(OR(lt(o1, binop("Sub", o2, tol, "f64")), le(diff, tol))))


def known_atoms(c, A, key, fs, spec, what):
    """every decision is made on the atoms of the specification"""
    ok = {a for f in spec for a in atoms(f)}
    base = set()
    for a in ok:
        if a[0] in ("lt", "eq"):
            base.add(tuple(sorted((a[1], a[2]))))
    bad = []
    for f in fs:
        for a in atoms(f):
            if a in ok or (a[0] in ("lt", "eq") and tuple(sorted((a[1], a[2]))) in base):
                continue
            if a not in bad:
                bad.append(a)
    return bad


def threshold_cases(c, A, q, self_, sol, canon, spec, where):
    """merit threshold follows the best"""
    oob, first, better, add, dup, worse = spec
    thr = loc(1, "merit_filter", "threshold")
    oldt = field(self_, "merit_filter", "threshold")
    got = final(A, q, thr, canon)
    isobj = lambda v: v == field(sol, "objective")
    same = lambda v: v == oldt
    check_cases(c, "threshold", got, [
        (oob, same, "an excluded solution leaves the merit threshold"),
        (first, isobj, "the first solution sets the merit threshold to its objective"),
        (better, isobj, "a new best sets the merit threshold to its objective"),
        (OR(add, dup, worse), same, "other solutions leave the merit threshold"),
    ], "merit threshold after process_local_solution", where=where)


@rule("C03", ("all", "nodefault"))
def accepted_threshold(c):
    """a processed local solution sets the merit threshold to its objective exactly when it is the first or a better one"""
    A, q, self_, sol, canon = entry(c)
    threshold_cases(c, A, q, self_, sol, canon, acceptance(A, self_, sol), "src/oqnlp.rs process_local_solution")


@rule("C04", ("all", "nodefault"))
def accept(c):
    """the solution set after a local solution is a function of the documented comparison with its first member"""
    A, q, self_, sol, canon = entry(c)
    spec = acceptance(A, self_, sol)
    oob, first, better, add, dup, worse = spec
    where = "src/oqnlp.rs process_local_solution"
    old = field(self_, "solution_set")
    got = final(A, q, loc(1, "solution_set"), canon)
    for l, ty in (("solution_set", None),):
        bad = known_atoms(c, A, "atoms", [g for g, _, _ in got], spec, "")
        c.ob(not bad, "atoms:solution_set", "the set changes only on the documented conditions; extra: " +
             "; ".join(A.show_atom(b)[:160] for b in bad), where)

    def single(v):
        n = nd(v)
        s = field(payload(v), "solutions")
        return n[0] == "agg" and n[2] == "Some" and (nd(s)[0] == "agg" and nd(s)[1] == "array" and nd(s)[4] == (sol,) or
                                                     q.listing(s) == [("one", sol)])

    def pushed(v):
        s = A.simp(field(payload(v), "solutions"))
        return nd(v)[0] == "agg" and nd(v)[2] == "Some" and (s == mk("push", setvec(self_), sol) or
                                                             q.listing(s) == [("all", A.simp(setvec(self_))), ("one", sol)]) or \
            (nd(v)[0] == "upd" and s == mk("push", setvec(self_), sol))
    check_cases(c, "set", got, [
        (oob, lambda v: v == old, "an excluded out-of-bounds solution leaves the set unchanged"),
        (first, single, "the first solution becomes the only member"),
        (better, single, "a solution better than the first member by more than the tolerance replaces the set"),
        (add, pushed, "a distinct solution within the tolerance is appended and no member is dropped"),
        (dup, lambda v: v == old, "a duplicate leaves the set unchanged"),
        (worse, lambda v: v == old, "a worse solution leaves the set unchanged"),
    ], "solution set after process_local_solution", where=where)
    # every local solution enters the distance filter
    ds = loc(1, "distance_filter", "solutions")
    olds = field(self_, "distance_filter", "solutions")
    for g, v, r in final(A, q, ds, canon):
        c.ob(v == mk("push", olds, sol), "distance-filter", f"every local solution is added to the distance filter: {shown(v, 6)}", where)
    # nothing else of the solver's state changes
    allowed = {"solution_set", "merit_filter", "distance_filter", "observer"}
    for w in A.writes():
        if w.loc[0] == ("A", 1) and len(w.loc) > 1 and w.loc[1] not in allowed and A.guard(w.node) != 0:
            c.ob(False, f"other-state:{w.loc[1]}", f"process_local_solution also changes self.{w.loc[1]}", w.span)
    # an error return would lose the solution
    for f, v, r in returns(A, q):
        c.ob(nd(v)[0] == "agg" and nd(v)[2] == "Ok", "returns", f"returns {shown(v, 5)}", where)


@rule("C05", ("all", "nodefault"))
def exclude(c):
    """with exclude_out_of_bounds no set member violates a bound: the acceptance path is guarded by the complete component-wise test"""
    A, q, self_, sol, canon = entry(c)
    flag = A.cond(field(self_, "exclude_out_of_bounds"))
    oob = AND(flag, named("oob"))
    n = 0
    for g, v, r in final(A, q, loc(1, "solution_set"), canon):
        if v == field(self_, "solution_set"):
            continue
        n += 1
        c.ob(not sat(AND(g, oob)), "excluded", f"with the setting on, a point outside its bounds reaches the set: {shown(v, 6)}",
             "src/oqnlp.rs process_local_solution")
    c.floor(n, 2, "set-writes", "ways the solution set changes")
    # with the setting off the bounds play no part
    off = B.nodes[flag][0] if flag > 1 else None
    k = 0
    for l in (("solution_set",), ("merit_filter", "threshold")):
        for g, v, r in final(A, q, loc(1, *l), canon):
            f = B.restrict(g, off, 0) if off is not None else g
            bad = [a for a in atoms(f) if a == atoms_of(named("oob")) or mentions_bounds(a)]
            k += 1
            c.ob(not bad, "off", f"with the setting off, self.{'.'.join(l)} does not depend on the bounds: {[A.show_atom(a)[:100] for a in bad[:2]]}",
                 "src/oqnlp.rs process_local_solution")
    c.floor(k, 2, "off", "cases with the setting off")
    # the threshold of the search is not moved by an excluded solution either
    for g, v, r in final(A, q, loc(1, "merit_filter", "threshold"), canon):
        if v != field(self_, "merit_filter", "threshold"):
            c.ob(not sat(AND(g, oob)), "excluded:threshold", "an excluded solution moves the merit threshold", "")
    # every writer of solution_set in the crate: only this function, the builder and the restore
    for setter, want in (("OQNLP::<P>::set_exclude_out_of_bounds", lambda S: S.argterm(2)), ("OQNLP::<P>::exclude_out_of_bounds", lambda S: TRUE)):
        S = c.an(setter)
        qs = Q(S)
        for g, v, r in returns(S, qs):
            c.ob(S.simp(project(v, "exclude_out_of_bounds")) == want(S), f"setter:{setter}", f"{setter} sets the flag as asked", setter)
    # helper, used by the target test as well
    W = c.an("OQNLP::<P>::is_within_bounds")
    qw = Q(W)
    p = W.argterm(2)
    for f, v, r in returns(W, qw, lambda f: replace_atoms(f, lambda a: named("oob") if oob_atom(a, lambda t: t == p) is not None else None)):
        b = W.cond(v)
        b = replace_atoms(b, lambda a: named("oob") if oob_atom(a, lambda t: t == p) is not None else None)
        c.ob(implies(f, B.ite(b, NOT(named("oob")), named("oob"))), "within-bounds",
             "is_within_bounds(x) holds exactly when every component lies in its closed bound interval", "src/oqnlp.rs is_within_bounds")


def atoms_of(f):
    return B.vars[B.nodes[f][0]]


def mentions_bounds(a):
    ts = []
    for x in a[1:]:
        if isinstance(x, int) and not isinstance(x, bool) and a[0] != "exists":
            ts.append(x)
    if a[0] == "exists":
        ts += list(a[1])
        if any(mentions_bounds(b) for b in atoms(a[2])):
            return True
    return any(is_bounds(y) for t in ts for y in subterms(t))


def best_of(t, self_vec):
    """objective/point of the minimum-objective member"""
    acc = call_of(t, "min_by")
    return acc is not None and acc[0] == self_vec


@rule("C06", ("all", "nodefault"))
def target(c):
    """the target test is best.objective <= target (and in bounds when exclusion is on)"""
    A = c.an("OQNLP::<P>::target_objective_reached")
    q = Q(A)
    self_ = arg(A, 1)
    tgt = field(self_, "target_objective")
    sset = field(self_, "solution_set")
    best = []

    def isbest(t):
        return best_of(t, setvec(self_))

    def canon(f):
        def r(a):
            if a[0] == "is" and call_of(a[1], "min_by") is not None and call_of(a[1], "min_by")[0] == setvec(self_):
                return named("nonempty")
            if a[0] in ("lt", "eq") and a[3] == "f":
                x, y = a[1], a[2]
                ob = lambda t: nd(t)[0] == "fld" and nd(t)[2] == "objective" and isbest(nd(t)[1])
                bo, tt = mk("sym", "bestobj"), payload(tgt)
                m = lambda t: bo if ob(t) else t
                return atom_terms(a, m)
            if oob_atom(a, lambda t: nd(t)[0] == "fld" and nd(t)[2] == "point" and isbest(nd(t)[1])) is not None:
                return named("oob")
            return None
        return replace_atoms(f, r)
    bo = mk("sym", "bestobj")
    want = AND(some(A, tgt), some(A, sset), named("nonempty"), le(bo, payload(tgt)),
               NOT(AND(A.cond(field(self_, "exclude_out_of_bounds")), named("oob"))))
    for f, v, r in returns(A, q):
        got = canon(A.cond(v))
        f = canon(f)
        c.ob(implies(f, B.ite(got, want, NOT(want))), "test", f"value {shown(v, 6)} under {A.show_f(f)[:200]}", "src/oqnlp.rs target_objective_reached")
    # best_solution is the minimum by objective, NaN last
    S = c.an("SolutionSet::best_solution", cfg=c.cfg)
    qs = Q(S)
    ok = False
    for e in S.events():
        if leafname(e.path) in ("min_by",):
            ok = S.simp(e.args[0]) == field(S.argterm(1), "solutions") and cmp_is(c, S, e.raw[1], "objective")
    c.ob(ok, "best", "best_solution() selects the member of least objective (total order)", "src/types.rs best_solution")


def cmp_is(c, A, clo, fieldname, desc=False):
    """closure term compares its two arguments by fieldname ascending with total_cmp / partial_cmp"""
    n = nd(A.simp(clo))
    if n[0] != "agg":
        return False
    C = c.an(n[1], cfg=c.cfg)
    for f, v, r in returns(C, Q(C)):
        nv = nd(v)
        while nv[0] == "fld" or (nv[0] == "call" and leafname(nv[1]) in ("unwrap_or",)):
            nv = nd(nv[1] if nv[0] == "fld" else nv[2][0])
        if not (nv[0] == "call" and leafname(nv[1]) in ("total_cmp", "partial_cmp") and len(nv[2]) == 2):
            return False
        x, y = nv[2]
        ax, ay = (fieldpath(x), fieldpath(y))
        i, j = 2, 3
        if desc:
            x, y = y, x
        if not (x == field(C.argterm(2), *([fieldname] if fieldname else [])) and y == field(C.argterm(3), *([fieldname] if fieldname else []))):
            return False
    return True
