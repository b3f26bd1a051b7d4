"""Observers and output: nothing flows back (C22); what they show (C23, C24)."""
from lib import *
from runlib import *
from taint import Taint

OB = ("Stage1State", "Stage2State", "invoke_callback", "start_timer", "mark_stage")
SOLVES = ("solve", "solve_with_tracking")
EFFECTS = {"objective", "gradient", "hessian", "constraints", "variable_bounds", "save_checkpoint", "load_latest_checkpoint", "load_checkpoint", "lock", "now", "elapsed",
           "cleanup_old_checkpoints", "minimize"}


def shared_canon(S):
    """solving with and without counting, and searching with and without an observer, are the same thing (shown on those functions themselves)"""
    def canon(t):
        n = nd(t)
        if n[0] == "call":
            nm = leafname(n[1])
            if nm == "with_observer":
                return S().canon(n[2][0])
            if nm == "run" and "ScatterSearch" in n[1] and n[3]:
                return mk("call", n[1], tuple(S().canon(x) for x in n[2]), "")
            if nm in SOLVES and "LocalSolver" in n[1]:
                return mk("call", "SOLVE", tuple(S().canon(x) for x in n[2][:2]), "")
        if n[0] == "fld" and n[2] == "0" and nd(n[1])[0] == "fld" and nd(n[1])[2] == "0":
            x = nd(nd(n[1])[1])
            if x[0] == "fld" and x[2] == "#Ok":
                y = nd(x[1])
                if y[0] == "call" and leafname(y[1]) == "solve_with_tracking":
                    return mk("fld", mk("fld", S().canon(x[1]), "#Ok"), "0")
        return None
    return canon


def effect(e):
    nm = leafname(e.path)
    if nm in SOLVES and "LocalSolver" in e.fn + e.path:
        return "solve", e.args[:2]
    if nm == "run" and "ScatterSearch" in e.fn + e.path:
        return "scatter", e.args[:1]
    if nm in EFFECTS or "rand::" in e.path or "std::fs::" in e.path:
        return e.path, e.args
    return None


def output(t):
    """the progress display"""
    n = nd(t)
    return n[0] == "call" and ("kdam::" in n[1] or "::progress" in n[1])


def quiet(c, A, q, source, where, tag, extra=(), skip=None):
    box = []
    S = Taint(A, q, source, shared_canon(lambda: box[0]), effect, skip)
    box.append(S)
    S.solve()
    c.floor(len(S.regions), 1, f"{tag}:branches", "branches on observer or output settings")
    for d in S.regions:
        c.ob(not [b for b in S.bad if b[0] == d], f"{tag}:branch", f"nothing but what is shown depends on the branch in {short(A.nodes[d].ctx.body.path)}: "
             + "; ".join(sorted({b[2] for b in S.bad if b[0] == d})), where_of(A, d, where))
    inside = set()
    for r in S.regions.values():
        inside |= r
    sinks = []
    for r in A.exits():
        sinks.append(("result", A.ret_at(r), None))
    sinks += extra
    for e in A.events():
        if e.node in inside:
            continue
        k = effect(e)
        if k is not None:
            for x in k[1]:
                sinks.append((f"argument of {leafname(e.path)}", x, e.node))
    done = set()
    for what, t, node in sinks:
        if t == UNDEF or (what, t) in done:
            continue
        done.add((what, t))
        P = Taint(A, q, source, S.rw, skip=skip)
        P.M, P.T, P._ch, P._c = S.M, S.T, S._ch, S._c
        box[0] = P
        P.value(t)
        h = P.run()
        box[0] = S
        why = " <- ".join(P.trail(next(iter(h.values())), 2, 5)) if h else ""
        c.ob(not h, f"{tag}:{what}", f"{what} does not depend on what is observed or shown {why[:300]}", where_of(A, node, where) if node is not None else where)
    return S


def where_of(A, n, dflt):
    for e in A.events_at.get(n, ()):
        return f"{dflt} {e.span}"
    return f"{dflt} {short(A.nodes[n].ctx.body.path)}"


@rule("C22", ("all", "nodefault", "rayon"))
def driver(c):
    """OQNLP::run: result, state and every evaluation, search and checkpoint are independent of observer, verbose and progress bar"""
    R = Run(c, ("LocalSolver", "ScatterSearch", "CheckpointManager") + OB, keep=OB + ("ScatterSearch",), nopanic=True)
    A, q = R.A, R.q

    def source(t):
        n = nd(t)
        if n[0] == "fld" and n[2] in ("observer", "verbose") and n[1] == R.self_:
            return n[2]
        return "progress bar" if output(t) else None
    extra = []
    fields = [f["name"] for p in c.prog().adts if p.endswith("oqnlp::OQNLP") for f in c.prog().adts[p]["vars"][0]["fields"]]
    for r in A.exits():
        for f in fields:
            if f not in ("observer", "verbose"):
                extra.append((f"the state left behind ({f})", A.simp(A.read(A.sout[r], loc(1, f))), None))
    quiet(c, A, q, source, "src/oqnlp.rs run", "run", extra)


@rule("C22", ("all", "nodefault", "rayon"))
def scatter(c):
    """ScatterSearch::run: the reference set returned and every evaluation are independent of the observer"""
    A = c.an("ScatterSearch::run", OB, keep=OB, nopanic=True)
    q = Q(A)
    me = A.argterm(1)

    def source(t):
        n = nd(t)
        if n[0] == "fld" and n[2] in ("observer", "progress_bar") and n[1] == me:
            return n[2]
        return "progress bar" if output(t) else None
    quiet(c, A, q, source, "src/scatter_search.rs run", "scatter")


def is_counter(A, q, t):
    """an optional evaluation counter: None or Some(a new shared atomic)"""
    cs = q.cases(t)
    k = 0
    for g, v in cs:
        n = nd(v)
        if n[0] == "agg" and n[2] == "None":
            continue
        x = A.simp(payload(v)) if n[0] == "agg" and n[2] == "Some" else v
        for _ in range(3):
            if nd(x)[0] == "call" and leafname(nd(x)[1]) in ("new", "clone", "from") and nd(x)[2]:
                if "Atomic" in nd(x)[1]:
                    k += 1
                    break
                x = A.simp(nd(x)[2][0])
        else:
            return False
        if "Atomic" not in nd(x)[1]:
            return False
    return k > 0


@rule("C22", ("all", "nodefault"))
def tracking(c):
    """LocalSolver::solve_with_tracking: solution and errors are the same with and without counting; solve() is it without counting"""
    from r_solver import adapters
    A = c.an("LocalSolver::solve_with_tracking", (), nopanic=True)
    q = Q(A)
    tr = A.argterm(3)
    none = mk("sym", "counter")
    seen = {}

    def plain(t):
        n = nd(t)
        if n[0] != "agg" or not n[4] or ("runner::" not in str(n[1]) and "closure" not in str(n[1])):
            return None
        new = []
        for f, x in zip(n[3], n[4]):
            if is_counter(A, q, x):
                seen.setdefault((n[1], f), True)
                new.append(none)
            else:
                new.append(x)
        return mk("agg", n[1], n[2], n[3], tuple(new)) if none in new else None

    def source(t):
        return "tracking" if t == tr else None
    where = "src/local_solver/runner.rs solve_with_tracking"
    box = []
    S = Taint(A, q, source, plain, effect)
    S.solve()
    c.floor(len(S.regions), 1, "solve:branches", "branches on tracking")
    for d in S.regions:
        c.ob(not [b for b in S.bad if b[0] == d], "solve:branch", "nothing but the count depends on tracking: " + "; ".join(sorted({b[2] for b in S.bad if b[0] == d})), where_of(A, d, where))
    k = 0
    for r in A.exits():
        v = A.simp(A.ret_at(r))
        for what, t in (("solution", field(field(field(v, "#Ok"), "0"), "0")), ("error", field(field(v, "#Err"), "0"))):
            k += 1
            S.seen, S.hits = {}, {}
            S.value(t)
            h = S.run()
            why = " <- ".join(S.trail(next(iter(h.values())), 2, 5)) if h else ""
            c.ob(not h, f"solve:{what}", f"the {what} does not depend on tracking {why[:200]}", where)
    c.floor(k, 2, "solve:results", "results")
    for p, f in sorted(seen, key=str):
        c.ob(True, "solve:counter", f"evaluation counter kept in {p}.{f}", where)
    # the adapters' values do not depend on their counter
    n = 0
    for b, m in adapters(c):
        C = c.an(b, (), nopanic=True)
        cq = Q(C)
        names = {str(f) for p, f in seen}
        me = arg(C, 1)
        srcs = {C.simp(field(me, f)) for f in names}
        T = Taint(C, cq, lambda t: "counter" if t in srcs else None, None, lambda e: (e.path, e.args) if leafname(e.path) in EFFECTS else None)
        T.solve()
        n += 1
        ok = not T.bad
        for r in C.exits():
            T.value(C.ret_at(r))
        c.ob(ok and not T.run(), "solve:adapter", f"{short(b)}: the value does not depend on the counter", b)
    if c.cfg != "nodefault":
        c.floor(n, 1, "solve:adapters", "objective adapters")
    W = c.an("LocalSolver::solve", ("solve_with_tracking",))
    wq = Q(W)
    es = list(wq.calls("solve_with_tracking"))
    ok = len(es) == 1 and W.guard(es[0].node) == 1 and [W.simp(x) for x in es[0].args[:2]] == [W.simp(arg(W, 1)), W.argterm(2)]
    c.ob(ok, "solve:same", "solve runs solve_with_tracking on the same solver and start point", "src/local_solver/runner.rs solve")
    for g, v, r in returns(W, wq):
        v = W.simp(v)
        n_ = nd(v)
        if ok and n_[0] == "agg" and n_[2] == "Ok":
            c.ob(W.simp(payload(v, "Ok")) == W.simp(field(field(field(es[0].ret, "#Ok"), "0"), "0")), "solve:result", "solve returns its solution", "src/local_solver/runner.rs solve")
