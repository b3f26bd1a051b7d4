"""Local solvers: dispatch, configuration wiring, results, errors, evaluation counting."""
from lib import *

TYPES = ("LBFGS", "NelderMead", "SteepestDescent", "TrustRegion", "NewtonCG", "COBYLA")
INVALID = {"LBFGS": "InvalidLBFGSConfig", "NelderMead": "InvalidNelderMeadConfig", "SteepestDescent": "InvalidSteepestDescentConfig",
           "TrustRegion": "InvalidTrustRegionConfig", "NewtonCG": "InvalidNewtonCG", "COBYLA": "InvalidCOBYLAConfig"}
WHERE = "src/local_solver/runner.rs"


def variant_in(A, f, t, names=TYPES):
    """the variants of t compatible with f"""
    out = []
    for v in names:
        g = B.AND(f, variant(A, t, v, names))
        if sat(g):
            out.append(v)
    return out


def variant(A, t, v, names=TYPES):
    return A.isvar(t, v, list(names))


class Solver:
    def __init__(self, c):
        self.c = c
        self.A = A = c.an("LocalSolver::solve_with_tracking", ())
        self.q = q = Q(A)
        self.self_, self.x0, self.track = arg(A, 1), A.argterm(2), A.argterm(3)
        self.typ = field(self.self_, "local_solver_type")
        self.conf = field(self.self_, "local_solver_config")
        self.names = TYPES if c.cfg in ("all", "python", "default+argmin") or has_argmin(c) else ("COBYLA",)
        self.rets = []
        for g, v, r in returns(A, q):
            self.rets.append((g, v, r))

    def oks(self):
        for g, v, r in self.rets:
            n = nd(v)
            if n[0] == "agg" and n[2] == "Ok":
                yield g, field(payload(v, "Ok"), "0"), field(payload(v, "Ok"), "1")

    def types_of(self, g):
        return variant_in(self.A, g, self.typ, self.names) if len(self.names) > 1 else list(self.names)

    def confs_of(self, g):
        return variant_in(self.A, g, self.conf, self.names) if len(self.names) > 1 else list(self.names)


def has_argmin(c):
    return any("solve_lbfgs" in f or "argmin" in f for f in c.prog().bodies)


def back_end(t):
    """the call whose successful result t is a part of: ('argmin', state term, component) or ('cobyla', call term, component)"""
    b, comps = chain(t)
    n = nd(b)
    comps = [x for x in comps if not x.startswith("#")]
    if n[0] != "call":
        return None
    if leafname(n[1]) in ("state", "take_state", "into_state") and n[2]:
        r, rc = chain(n[2][0])
        return ("argmin", r, comps)
    if leafname(n[1]) == "run":
        return ("argmin", b, [x for x in comps if x not in ("0", "state")])
    if leafname(n[1]) == "minimize":
        return ("cobyla", b, comps[1:])
    return None


@rule("C01", ("all", "nodefault"))
def local_result(c):
    """a LocalSolution takes point and objective from the same finished run of the back end"""
    S = Solver(c)
    A = S.A
    n = 0
    for g, sol, ev in S.oks():
        for g2, p in S.q.cases(field(sol, "point")):
            for g3, o in S.q.cases(field(sol, "objective")):
                if not sat(AND(g, g2, g3)):
                    continue
                n += 1
                bp, bo = back_end(A.simp(p)), back_end(A.simp(o))
                ok = bp is not None and bo is not None and bp[:2] == bo[:2]
                if ok and bp[0] == "argmin":
                    ok = bp[2] == ["best_param", "0"] and bo[2] == ["best_cost"]
                elif ok:
                    ok = bp[2] == ["1"] and bo[2] == ["2"]
                c.ob(ok, "local-solution", f"solution of {S.types_of(g)}: point {shown(p, 4)} and objective {shown(o, 4)} come from the same run", WHERE)
    c.floor(n, len(S.names), "local-solutions", "successful local-solver results")


# ------------------------------------------------------------ C21 dispatch and errors
@rule("C21", ("all", "nodefault"))
def dispatch(c):
    """the configured solver type alone selects the back end; a mismatching configuration, a rejected setting, a failed run and a missing
    result are each reported as the documented error"""
    S = Solver(c)
    A = S.A
    seen = set()
    for g, sol, ev in S.oks():
        ts = S.types_of(g)
        c.ob(len(ts) == 1, "one-type", f"a result path belongs to one solver type: {ts}", WHERE)
        for t in ts:
            seen.add(t)
            cf = S.confs_of(g)
            c.ob(cf == [t], f"config:{t}", f"solver {t} runs only with its own configuration, here with {cf}", WHERE)
            for g2, p in S.q.cases(field(sol, "point")):
                if not sat(AND(g, g2)):
                    continue
                be = back_end(A.simp(p))
                c.ob(be is not None and algorithm(A, S.q, be) == {t}, f"algorithm:{t}",
                     f"solver type {t} runs {algorithm(A, S.q, be) if be else None}", WHERE)
    for t in S.names:
        c.ob(t in seen, f"reached:{t}", f"solver type {t} has a result path", WHERE)
    # errors
    nerr = 0
    tot = {t: 0 for t in S.names}
    for g, v, r in S.rets:
        n = nd(v)
        if n[0] == "agg" and n[2] == "Ok":
            continue
        nerr += 1
        for t in S.types_of(g):
            gt = AND(g, variant(A, S.typ, t, S.names)) if len(S.names) > 1 else g
            error_path(c, S, gt, t, v)
    c.floor(nerr, 2 if len(S.names) == 1 else 20, "errors", "error paths of the local solvers")
    # a mismatch never runs anything
    for t in S.names:
        tg = variant(A, S.typ, t, S.names) if len(S.names) > 1 else 1
        for u in S.names:
            if u == t:
                continue
            bad = AND(tg, variant(A, S.conf, u, S.names))
            for e in S.q.calls("run", "minimize"):
                if "Executor" in e.path or "cobyla" in e.path:
                    c.ob(not sat(AND(A.guard(e.node), bad)), f"mismatch:{t}:{u}", f"solver {t} with a {u} configuration runs nothing", e.where())
    # solve() is the untracked variant
    S2 = c.an("LocalSolver::solve", ("solve_with_tracking",))
    q2 = Q(S2)
    calls = list(q2.calls("solve_with_tracking"))
    c.ob(len(calls) == 1 and S2.simp(calls[0].args[1]) == S2.argterm(2) and S2.simp(calls[0].args[2]) == FALSE, "solve",
         "solve(x) = solve_with_tracking(x, false)", WHERE)
    for g, v, r in returns(S2, q2):
        n = nd(v)
        ok = n[0] == "agg" and calls and (
            n[2] == "Ok" and S2.simp(payload(v, "Ok")) == S2.simp(field(payload(calls[0].ret, "Ok"), "0")) or n[2] == "Err")
        c.ob(ok or n[0] != "agg", "solve:result", f"solve() returns the solution of the run: {shown(v, 5)}", WHERE)


def error_path(c, S, g, t, v):
    A = S.A
    e = payload(v, "Err")
    ne = nd(e)
    while ne[0] == "call" and leafname(ne[1]) in ("from", "into") and len(ne[2]) == 1:
        ne = nd(ne[2][0])
    kind = ne[2] if ne[0] == "agg" else "?"
    # which step failed on this path
    runf, setf, none, failed = 0, 0, 0, []
    for a in atoms(g):
        if a[0] != "is":
            continue
        n = nd(a[1])
        bad = B.var(a) if a[2] in ("Err", "None") else NOT(B.var(a))
        if n[0] == "call" and a[2] in ("Ok", "Err"):
            l = leafname(n[1])
            if l in ("run", "minimize"):
                runf = OR(runf, bad)
            elif l.startswith("with_"):
                setf = OR(setf, bad)
        elif n[0] == "fld" and "best_param" in chain(a[1])[1]:
            none = OR(none, bad)
    cf = S.confs_of(g)
    if t not in cf:
        want, why = (INVALID[t],), f"configuration {cf}"
    elif none and implies(g, none):
        want, why = ("NoSolution",), "no best parameter"
    elif runf and implies(g, runf):
        want, why = ("RunFailed",), "failed run"
    elif setf and implies(g, setf):
        want, why = (INVALID[t],), "rejected setting"
    else:
        want, why = (INVALID[t],), "other"
    c.ob(kind in want, f"error:{t}:{want[0]}", f"solver {t}, {why}: reports {kind}", WHERE)


def algorithm(A, q, be):
    """names of the algorithms run by a back-end call"""
    kind, r, _ = be
    if kind == "cobyla":
        return {"COBYLA"}
    ex = strip_exec(A, r)
    if ex is None:
        return {"?"}
    out = set()
    for g, s in q.cases(ex[1]):
        st = settings(A, s)
        out.add(st[0] if st else "?")
    return out


def strip_exec(A, r):
    """Executor::run(configure(new(cost, solver), closure)) -> (cost, solver, [closures])"""
    clos = []
    t = A.simp(r)
    for _ in range(20):
        n = nd(chain(t)[0])
        if n[0] != "call":
            return None
        l = leafname(n[1])
        if l == "new" and "Executor" in n[1]:
            return n[2][0], A.simp(n[2][1]), clos
        if l == "configure":
            clos.append(n[2][1])
        t = A.simp(n[2][0])
    return None


def settings(A, t):
    """builder chain -> (type name, {setter: args}, constructor args)"""
    sets = {}
    t = A.simp(t)
    for _ in range(30):
        b, comps = chain(t)
        n = nd(b)
        if n[0] != "call":
            return None
        l = leafname(n[1])
        if l == "new":
            from inline import plain
            return plain(n[1]).split("::")[-2], sets, n[2]
        if l not in sets:       # the outermost call wins
            sets[l] = n[2][1:]
        t = A.simp(n[2][0])
    return None


# ------------------------------------------------------------ C19 configuration wiring
LS = "local_solver_config.line_search_params.method."
CF = "local_solver_config."
MT = {"with_c": (LS + "c1", LS + "c2"), "with_bounds": (LS + "bounds[0]", LS + "bounds[1]"), "with_width_tolerance": (LS + "width_tolerance",)}
HZ = {"with_delta_sigma": (LS + "delta", LS + "sigma"), "with_epsilon": (LS + "epsilon",), "with_theta": (LS + "theta",), "with_gamma": (LS + "gamma",),
      "with_eta": (LS + "eta",), "with_bounds": (LS + "bounds[0]", LS + "bounds[1]")}
METHODS = {"MoreThuente": ("MoreThuenteLineSearch", MT), "HagerZhang": ("HagerZhangLineSearch", HZ)}
RADIUS = {"Cauchy": "CauchyPoint", "Steihaug": "Steihaug"}
ALG = {
    "LBFGS": {"with_tolerance_cost": (CF + "tolerance_cost",), "with_tolerance_grad": (CF + "tolerance_grad",)},
    "NelderMead": {"with_" + k: (CF + k,) for k in ("sd_tolerance", "alpha", "gamma", "rho", "sigma")},
    "SteepestDescent": {},
    "TrustRegion": {"with_" + k: (CF + k,) for k in ("radius", "max_radius", "eta")},
    "NewtonCG": {"with_tolerance": (CF + "tolerance",), "with_curvature_threshold": (CF + "curvature_threshold",)},
}


def path_of(A, t, root):
    """dotted path below root, '' for root itself, None if t is no part of root"""
    t = A.simp(t)
    out = []
    while t != root:
        n = nd(t)
        if n[0] == "fld":
            if not n[2].startswith("#"):
                out.append("." + n[2])
            t = n[1]
        elif n[0] == "at":
            i = nd(n[2])
            out.append(f"[{i[1]}]" if i[0] == "c" else "[?]")
            t = n[1]
        else:
            return None
    return "".join(reversed(out)).lstrip(".")


def same_settings(c, S, key, got, want, what):
    A = S.A
    for k, w in want.items():
        g = got.get(k)
        p = tuple(path_of(A, x, S.self_) for x in g) if g is not None else None
        c.ob(p == w, f"{key}:{k}", f"{what}: {k} gets {', '.join(w)}" + ("" if p == w else f", not {p}"), WHERE)
    for k in got:
        if k not in want:
            c.ob(False, f"{key}:extra:{k}", f"{what}: {k} is set, which is not part of the configuration", WHERE)


def closure_calls(c, clo, A):
    """calls a `|state| state.a(..).b(..)` closure makes on its argument: {name: args in terms of the caller}"""
    n = nd(A.simp(clo))
    if n[0] != "agg":
        return None
    C = c.an(n[1], ())
    out = None
    for g, v, r in returns(C, Q(C)):
        o = {}
        t = C.simp(v)
        while True:
            x = nd(t)
            if x[0] != "call":
                break
            o.setdefault(leafname(x[1]), tuple(captured(C, a, n) for a in x[2][1:]))
            t = C.simp(x[2][0])
        if t != C.argterm(2) or (out is not None and out != o):
            return None
        out = o
    return out


def captured(C, t, n):
    """argument term of a closure in terms of the captures n (an agg)"""
    t = C.simp(t)
    x = nd(t)
    if x[0] == "fld" and x[1] == C.argterm(1) and x[2] in n[3]:
        return n[4][n[3].index(x[2])]
    if x[0] == "fld":
        return project(captured(C, x[1], n), x[2])
    if x[0] == "cast":
        return mk("cast", x[1], captured(C, x[2], n))
    return t


@rule("C19", ("all", "nodefault"))
def wiring(c):
    """every field of the solver configuration reaches the back-end setting it names, on every solver and line-search arm"""
    S = Solver(c)
    A, q = S.A, S.q
    arms = set()
    for g, sol, ev in S.oks():
        t = S.types_of(g)
        if len(t) != 1:
            c.ob(False, "one-type", f"a result path belongs to one solver type: {t}", WHERE)
            continue
        t = t[0]
        for g1, p in q.cases(field(sol, "point")):
            if not sat(AND(g, g1)):
                continue
            be = back_end(A.simp(p))
            if be is None:
                c.ob(False, f"{t}:run", f"the result of {t} does not come from a back-end run: {shown(p, 5)}", WHERE)
                continue
            if t == "COBYLA":
                cobyla(c, S, AND(g, g1), be)
                arms.add(t)
                continue
            ex = strip_exec(A, be[1])
            if ex is None:
                c.ob(False, f"{t}:run", f"{t} is not run by an executor: {shown(be[1], 5)}", WHERE)
                continue
            cost, solver, clos = ex
            for g2, cs in q.cases(cost):
                if sat(AND(g, g1, g2)):
                    n = nd(cs)
                    ok = n[0] == "agg" and any(path_of(A, x, S.self_) == "problem" for x in n[4])
                    c.ob(ok, f"{t}:problem", f"{t} minimises the problem it was given: {shown(cs, 4)}", WHERE)
            conf = {}
            for k in clos:
                cc = closure_calls(c, k, A)
                if cc is None:
                    c.ob(False, f"{t}:configure", f"the executor of {t} is configured by {shown(k, 4)}", WHERE)
                    cc = {}
                for kk, v in cc.items():
                    conf.setdefault(kk, v)
            mi = conf.get("max_iters")
            c.ob(mi is not None and path_of(A, mi[0], S.self_) == CF + "max_iter", f"{t}:max_iters",
                 f"{t}: max_iters gets {CF}max_iter" + ("" if mi else " (not set)"), WHERE)
            if t != "NelderMead":
                pp = conf.get("param")
                c.ob(pp is not None and A.simp(pp[0]) == S.x0, f"{t}:start", f"{t} starts from the given point", WHERE)
            for k in conf:
                if k not in ("max_iters", "param"):
                    c.ob(False, f"{t}:extra:{k}", f"{t}: the run is also configured with {k}", WHERE)
            for g2, sv in q.cases(solver):
                G = AND(g, g1, g2)
                if not sat(G):
                    continue
                st = settings(A, sv)
                if st is None or st[0] != t:
                    c.ob(False, f"{t}:algorithm", f"{t} runs {st[0] if st else shown(sv, 5)}", WHERE)
                    continue
                want = dict(ALG[t])
                if t == "LBFGS":
                    l1 = field(S.conf, "#LBFGS", "l1_coefficient")
                    has = A.isvar(l1, "Some", ["None", "Some"])
                    if sat(AND(G, has)):
                        c.ob(not sat(AND(G, NOT(has))), "LBFGS:l1", "the L1 term is used exactly when configured", WHERE)
                        want["with_l1_regularization"] = (CF + "l1_coefficient.0",)
                    c.ob(len(st[2]) > 1 and path_of(A, st[2][1], S.self_) == CF + "history_size", "LBFGS:history_size", "LBFGS keeps history_size pairs", WHERE)
                same_settings(c, S, t, st[1], want, t)
                if t in ("LBFGS", "SteepestDescent", "NewtonCG"):
                    method = field(S.conf, "#" + t, "line_search_params", "method")
                    for g3, ls in q.cases(st[2][0]):
                        if not sat(AND(G, g3)):
                            continue
                        vs = variant_in(A, AND(G, g3), method, tuple(METHODS))
                        lt_ = settings(A, ls)
                        ok = len(vs) == 1 and lt_ is not None and lt_[0] == METHODS[vs[0]][0]
                        c.ob(ok, f"{t}:line-search", f"{t} with method {vs} uses {lt_[0] if lt_ else shown(ls, 4)}", WHERE)
                        if ok:
                            arms.add((t, vs[0]))
                            same_settings(c, S, f"{t}:{vs[0]}", lt_[1], METHODS[vs[0]][1], f"{t} with {vs[0]}")
                elif t == "TrustRegion":
                    m = field(S.conf, "#TrustRegion", "trust_region_radius_method")
                    vs = variant_in(A, G, m, tuple(RADIUS))
                    sub = settings(A, st[2][0])
                    ok = len(vs) == 1 and sub is not None and sub[0] == RADIUS[vs[0]]
                    c.ob(ok, "TrustRegion:subproblem", f"TrustRegion with {vs} uses {sub[0] if sub else None}", WHERE)
                    if ok:
                        arms.add((t, vs[0]))
                else:
                    simplex(c, S, st[2][0])
                    arms.add(t)
    want = {"COBYLA"}
    if len(S.names) > 1:
        want |= {"NelderMead"} | {(t, m) for t in ("LBFGS", "SteepestDescent", "NewtonCG") for m in METHODS} | {("TrustRegion", m) for m in RADIUS}
    for w in sorted(want, key=str):
        c.ob(w in arms, f"arm:{w}", f"the arm {w} was found", WHERE)


def simplex(c, S, v):
    """Nelder-Mead starts from x0 and x0 + delta*e_i for every i"""
    A, q = S.A, S.q
    start = other = 0
    for x, p in q.elems(v):
        x = A.simp(x)
        n = nd(x)
        if x == S.x0:
            start += 1
            continue
        ok = False
        if n[0] == "upd" and n[1] == S.x0 and len(n[2]) == 1 and isinstance(n[2][0], tuple) and n[2][0][0] == "[]":
            i = A.simp(n[2][0][1])
            val = nd(A.simp(n[3]))
            ok = nd(i)[0] == "idx" and nd(i)[1] == S.x0 and val[0] == "bin" and val[1] == "Add" and \
                {path_of(A, val[2], S.self_), path_of(A, val[3], S.self_)} >= {CF + "simplex_delta"} and \
                any(nd(z)[0] == "elem" and nd(z)[1] == S.x0 for z in (val[2], val[3]))
            other += ok
        c.ob(ok, "NelderMead:simplex", f"a simplex vertex is the start point moved by simplex_delta in one coordinate: {shown(x, 6)}", WHERE)
    c.ob(start == 1 and other == 1, "NelderMead:simplex:vertices", "the simplex is the start point and one vertex per coordinate", WHERE)


def cobyla(c, S, G, be):
    A, q = S.A, S.q
    n = nd(be[1])
    a = [A.simp(x) for x in n[2]]
    c.need(len(a) == 8, "COBYLA:call", "cobyla::minimize(f, x0, bounds, constraints, data, max_eval, rhobeg, tols)", WHERE)
    c.ob(a[1] == S.x0, "COBYLA:start", f"COBYLA starts from the given point: {shown(a[1], 4)}", WHERE)
    cons = nd(a[3])
    c.ob(cons[0] == "call" and leafname(cons[1]) == "constraints" and path_of(A, cons[2][0], S.self_) == "problem", "COBYLA:constraints",
         f"COBYLA gets all constraints of the problem: {shown(a[3], 4)}", WHERE)
    mx = nd(a[5])
    c.ob(path_of(A, mx[2] if mx[0] == "cast" else a[5], S.self_) == CF + "max_iter", "COBYLA:max_iter", "COBYLA evaluates at most max_iter times", WHERE)
    rho = nd(a[6])
    c.ob(rho[0] == "agg" and rho[2] == "All" and path_of(A, rho[4][0], S.self_) == CF + "initial_step_size", "COBYLA:initial_step_size",
         "the initial step is initial_step_size", WHERE)
    tol = payload(a[7])
    for k in ("ftol_rel", "ftol_abs", "xtol_rel"):
        c.ob(path_of(A, field(tol, k), S.self_) == CF + k, f"COBYLA:{k}", f"{k} gets {CF}{k}", WHERE)
    xt = field(S.conf, "#COBYLA", "xtol_abs")
    for g, v in q.cases(field(tol, "xtol_abs")):
        ok = path_of(A, v, S.self_) == CF + "xtol_abs"
        if not ok and q.is_empty(v):
            # an empty vector only where the configured one is empty
            ok = not sat(AND(G, g, NOT(emptyvec(A, AND(G, g), xt))))
        c.ob(ok, "COBYLA:xtol_abs", f"xtol_abs gets {CF}xtol_abs: {shown(v, 4)}", WHERE)
    # bounds: (lower, upper) of every variable
    isb = lambda t: nd(t)[0] == "call" and leafname(nd(t)[1]) == "variable_bounds" and path_of(A, nd(t)[2][0], S.self_) == "problem"
    cnt = 0
    for x, p in q.elems(a[2]):
        cnt += 1
        x = A.simp(x)
        lo, hi = A.simp(field(x, "0")), A.simp(field(x, "1"))
        rows = []
        for t, col in ((lo, 0), (hi, 1)):
            i = bound_of(t, isb)
            rows.append(i[1] if i is not None and i[0] == col else None)
        ok = rows[0] is not None and rows[0] == rows[1] and rows[0][0] == "d"
        c.ob(ok, "COBYLA:bounds", f"COBYLA gets the bounds (lower, upper) of each variable in order: ({shown(lo, 5)}, {shown(hi, 5)})", WHERE)
    c.floor(cnt, 1, "COBYLA:bounds", "bounds handed to COBYLA")


def emptyvec(A, G, v):
    """v has no elements (a comparison of its length with zero, or is_empty)"""
    r = 0
    for a in atoms(G):
        f = B.var(a)
        if a[0] in ("eq", "lt") and a[3] == "i":
            x, y = nd(a[1]), nd(a[2])
            isl = lambda n: n[0] == "call" and n[1] == "len" and A.simp(n[2][0]) == A.simp(v)
            k = lambda n: n[1] if n[0] == "c" else None
            if a[0] == "eq" and (isl(x) and k(y) == 0 or isl(y) and k(x) == 0):
                r = OR(r, f)
            if a[0] == "lt" and isl(x) and k(y) == 1:
                r = OR(r, f)
            if a[0] == "lt" and isl(y) and k(x) == 0:
                r = OR(r, NOT(f))
        if a[0] == "t" and nd(a[1])[0] == "call" and leafname(nd(a[1])[1]) == "is_empty" and nd(a[1])[2][0] == v:
            r = OR(r, f)
    return r


@rule("C19", ("all", "nodefault"))
def handed(c):
    """the local solver is built from the problem, type and configuration it is given, and the optimiser gives it those of its parameters"""
    N = c.an("LocalSolver::new", ())
    n = 0
    for g, v, r in returns(N, Q(N)):
        for i, k in enumerate(("problem", "local_solver_type", "local_solver_config"), 1):
            x = N.simp(field(v, k))
            c.ob(x == N.argterm(i), f"new:{k}", f"LocalSolver::new keeps {k} as given: {shown(x, 5)}", WHERE)
            n += 1
    from runlib import Run
    for A in (c.an("OQNLP::new", ("LocalSolver",)), Run(c).A):
        for e in Q(A).calls("new"):
            if "LocalSolver" not in e.path or len(e.args) != 3:
                continue
            for i, k in ((1, "local_solver_type"), (2, "local_solver_config")):
                t = A.simp(e.args[i])
                names = []
                while nd(t)[0] == "fld" and len(names) < 2:
                    names.append(nd(t)[2])
                    t = nd(t)[1]
                base = nd(t)
                ok = names[:1] == [k] and (names[1:] == ["params"] or base[0] in ("arg", "phi", "deref"))
                c.ob(ok, f"handed:{k}", f"the optimiser passes {k} of its parameters: {shown(A.simp(e.args[i]), 5)}", e.where())
                n += 1
    c.floor(n, 5, "handed", "settings handed to a local solver")


@rule("C19", ("all", "nodefault"))
def copies(c):
    """cloning a configuration yields the same variant with every field"""
    n = 0
    for p in sorted(c.prog().bodies):
        if not p.endswith("Clone>::clone") or not any(x in p for x in ("LocalSolverConfig", "LineSearch", "TrustRegionRadiusMethod", "LocalSolverType", "OQNLPParams")):
            continue
        A = c.an(p, ())
        self_ = arg(A, 1)
        for g, v, r in returns(A, Q(A)):
            v = A.simp(v)
            if v == A.simp(self_):
                n += 1
                continue
            x = nd(v)
            if x[0] != "agg":
                c.ob(False, "clone", f"{short_(p)}: {shown(v, 4)}", p)
                continue
            src = A.simp(self_)
            names = variants_of(c, x[1])
            if names and x[2] in names:
                if len(names) > 1:
                    c.ob(not sat(AND(g, NOT(A.isvar(src, x[2], names)))), f"clone:variant:{x[2]}", f"{short_(p)}: only a {x[2]} becomes a {x[2]}", p)
            for k, y in zip(x[3], x[4]):
                n += 1
                w = field(src, "#" + x[2], k) if names else field(src, k)
                for g2, z in Q(A).cases(y):
                    if sat(AND(g, g2)):
                        c.ob(A.simp(z) == A.simp(w), f"clone:{x[2]}.{k}", f"{short_(p)} copies {k}: {shown(z, 5)}", p)
    c.floor(n, 4, "copies", "fields of cloned configurations")


def variants_of(c, path):
    """the variants of an enum, nothing for a struct"""
    for a, d in c.prog().adts.items():
        if a == path or a.endswith("::" + path) or path.endswith("::" + a):
            return [v["name"] for v in d["vars"]] if d["enum"] else []
    return []


# ------------------------------------------------------------ C13 / C30: what the back ends evaluate
TRAITS = (("CostFunction>::cost", "objective"), ("Gradient>::gradient", "gradient"), ("Hessian>::hessian", "hessian"))


def adapters(c):
    """(body path, Problem method) of every argmin adapter"""
    for p in sorted(c.prog().bodies):
        for suf, m in TRAITS:
            if p.endswith(suf) and " as argmin::core::" in p:
                yield p, m


def cobyla_closures(c, S):
    A = S.A
    for e in S.q.calls("minimize"):
        if "cobyla" in e.path:
            for g, v in S.q.cases(e.raw[0]):
                n = nd(A.simp(v))
                yield e, n


@rule("C13", ("all", "nodefault"))
def errors_local(c):
    """a failed evaluation reaches the back end as an error (argmin) or as +infinity (COBYLA), a successful one unchanged"""
    S = Solver(c)
    k = 0
    for p, m in adapters(c):
        k += 1
        C = c.an(p, ())
        q = Q(C)
        x = C.argterm(2)
        self_ = arg(C, 1)
        evs = [e for e in q.calls(m) if "Problem" in e.path]
        c.ob(len(evs) >= 1, f"{m}:called", f"{short_(p)} evaluates {m}", p)
        ret = {}
        for e in evs:
            c.ob(C.simp(e.args[1]) == x and path_of(C, e.args[0], self_) == "problem", f"{m}:point",
                 f"{short_(p)} evaluates {m} of its problem at the point it was asked for: {shown(e.args[1], 4)}", e.where())
        for g, v, r in returns(C, q):
            n = nd(v)
            if n[0] == "agg" and n[2] == "Ok":
                y = C.simp(payload(v, "Ok"))
                a = call_of(y, m)
                c.ob(a is not None and a[1] == x, f"{m}:value", f"{short_(p)} returns the value of {m}: {shown(y, 5)}", p)
            elif n[0] == "agg" and n[2] == "Err":
                pass
            else:
                a = call_of(v, m)
                c.ob(a is not None, f"{m}:value", f"{short_(p)} returns {shown(v, 5)}", p)
            # an error is never a value
            for e in evs:
                fail = NOT(C.isvar(C.simp(e.ret), "Ok", ["Ok", "Err"]))
                if n[0] == "agg" and n[2] == "Ok":
                    c.ob(not sat(AND(g, fail)), f"{m}:error", f"{short_(p)}: a failed {m} evaluation is an error", e.where())
    k2 = 0
    for e, n in cobyla_closures(c, S):
        k2 += 1
        if n[0] != "agg":
            c.ob(False, "cobyla:objective", "the objective handed to COBYLA is a closure", e.where())
            continue
        C = c.an(n[1], ())
        q = Q(C)
        evs = [x for x in q.calls("objective") if "Problem" in x.path]
        c.ob(len(evs) == 1 and q.copy_of(evs[0].args[1]) == C.argterm(2), "cobyla:point", "COBYLA's objective is evaluated at the point asked for", e.where())
        for ev in evs:
            okv = C.isvar(C.simp(ev.ret), "Ok", ["Ok", "Err"])
            for g, v, r in returns(C, q):
                if sat(AND(g, okv)):
                    c.ob(C.simp(v) == C.simp(payload(ev.ret, "Ok")), "cobyla:value", f"COBYLA gets the objective value: {shown(v, 5)}", e.where())
                if sat(AND(g, NOT(okv))):
                    c.ob(is_inf(v), "cobyla:error", f"a failed evaluation is worse than any value (+infinity): {shown(v, 5)}", e.where())
    c.floor(k, 3 if len(S.names) > 1 else 0, "adapters", "argmin adapters")
    c.floor(k2, 1, "cobyla", "COBYLA objectives")


def short_(p):
    return p.replace("globalsearch::", "").replace("local_solver::runner::LocalSolver<P>::", "").replace("argmin::core::", "")


def is_inf(t):
    n = nd(t)
    return (n[0] in ("item", "const", "c") and "INFINITY" in str(n) and "NEG" not in str(n)) or (n[0] == "c" and n[1] == float("inf"))


@rule("C30", ("all", "nodefault"))
def counting(c):
    """with tracking, the reported number of evaluations is read from the counter that every objective evaluation of that run increments by
    one; without, it is 0"""
    S = Solver(c)
    A, q = S.A, S.q
    n = 0
    for g, sol, ev in S.oks():
        for g1, p in q.cases(field(sol, "point")):
            be = back_end(A.simp(p)) if sat(AND(g, g1)) else None
            if be is None:
                continue
            if be[0] == "cobyla":
                obj = A.simp(nd(be[1])[2][0])
            else:
                ex = strip_exec(A, be[1])
                obj = A.simp(ex[0]) if ex else None
            for g2, v in q.cases(ev):
                G = AND(g, g1, g2)
                if not sat(G):
                    continue
                n += 1
                tr = A.cond(S.track)
                if sat(AND(G, NOT(tr))):
                    c.ob(nd(v)[0] == "c" and nd(v)[1] == 0 and not sat(AND(G, tr)), "untracked", f"without tracking the count is 0: {shown(v, 5)}", WHERE)
                    continue
                a = call_of(v, "load")
                c.ob(a is not None, "tracked", f"the count is read from the counter: {shown(v, 5)}", WHERE)
                if a is None or obj is None or nd(obj)[0] != "agg":
                    c.ob(False, "counter", "the objective of the run carries the counter", WHERE)
                    continue
                no = nd(obj)
                where = None
                for name, x in zip(no[3], no[4]):
                    for g3, y in q.cases(x):
                        if sat(AND(G, g3)) and (A.simp(y) == A.simp(a[0]) or A.simp(payload(y)) == A.simp(a[0])):
                            where = (name, A.simp(y) != A.simp(a[0]))
                c.ob(where is not None, "counter", "the counter read is the one the objective of this run increments", WHERE)
                # starts at zero
                init = call_of(A.simp(a[0]), "new")
                z = init and call_of(init[0], "new")
                zz = nd(z[0]) if z else (nd(init[0]) if init else None)
                if call_of(init[0] if init else A.simp(a[0]), "default") is not None:
                    zz = ("c", 0)       # the default of an atomic counter
                c.ob(zz is not None and zz[0] == "c" and zz[1] == 0, "zero", f"the counter starts at 0: {shown(a[0], 5)}", WHERE)
                if where:
                    body = no[1] if be[0] == "cobyla" else None
                    if body is None:
                        bodies = [p2 for p2, m in adapters(c) if m == "objective" and adapter_of(p2, no[1])]
                    else:
                        bodies = [body]
                    c.ob(len(bodies) == 1, "adapter", f"one objective adapter for {no[1]}", WHERE)
                    for b in bodies:
                        one_per_call(c, b, where)
                    if be[0] != "cobyla":
                        for p2, m in adapters(c):
                            if m != "objective" and adapter_of(p2, no[1]):
                                others = [e for k in ("fetch_add", "fetch_sub", "store") for e in Q(c.an(p2, ())).calls(k)]
                                c.ob(not others, f"other:{m}", f"{short_(p2)}: a {m} evaluation is not counted as an evaluation of the objective", p2)
    c.floor(n, 2, "counts", "reported evaluation counts")


def adapter_of(path, struct):
    """does the trait method path implement it for struct (agg path)?"""
    a = path.split("<", 1)[1].split(" as ")[0]
    import re
    norm = lambda s: re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", s)).replace("globalsearch::", "").replace("::::", "::")
    return norm(a) == norm(struct)


def one_per_call(c, b, where):
    C = c.an(b, ())
    q = Q(C)
    ctr = field(arg(C, 1), where[0])
    has = C.isvar(ctr, "Some", ["None", "Some"]) if where[1] else 1
    if where[1]:
        ctr = payload(ctr)
    adds = [e for e in q.calls("fetch_add") if C.simp(e.args[0]) == C.simp(ctr)]
    evals = [e for e in q.calls("objective") if "Problem" in e.path]
    f = OR(*[C.guard(e.node) for e in adds])
    inloop = any(C.flow.inl[e.node] for e in adds + evals)
    one = all(nd(C.simp(e.args[1]))[0] == "c" and nd(C.simp(e.args[1]))[1] == 1 for e in adds)
    excl = all(not sat(AND(C.guard(x.node), C.guard(y.node))) for i, x in enumerate(adds) for y in adds[:i])
    want = AND(has, OR(*[C.guard(e.node) for e in evals]))
    c.ob(adds and one and excl and not inloop and equiv(f, want), "one-per-evaluation",
         f"{short_(b)}: each objective evaluation adds one to the counter", b)
