"""Control flow of Stage 2: stopping at the target, time limit, iteration budget."""
from lib import *
from runlib import *
import terms
from r_gate import fieldend, gate_formula, skip_formula, relaxed, where_of


def reach(A, starts, assume=1, stop=()):
    """nodes reachable from the given nodes along edges compatible with `assume`"""
    fl = A.flow
    seen, st = set(starts), list(starts)
    while st:
        u = st.pop()
        if u in stop:
            continue
        for v in fl.succ[u]:
            if v in seen or (u, v) not in A.feas:
                continue
            if assume != 1 and B.AND(A.edge_cond(u, v), assume) == 0:
                continue
            seen.add(v)
            st.append(v)
    return seen


@rule("C06", ("all", "nodefault", "checkpointing"))
def stop_at_target(c):
    """after a local solution was processed no local search starts and no further solution is processed before the target test, and once
    the test holds the run only winds up"""
    R = Run(c)
    A, q, fl = R.A, R.q, R.fl
    tests = list(q.calls("target_objective_reached"))
    c.floor(len(tests), 2, "tests", "target tests in run()")
    tn = {e.node for e in tests}
    entries = {n for n, x in R.entries}
    c.floor(len(entries), 2, "processed", "places where a local solution is processed")
    solves = {e.node: e for e in R.solves}
    for n, x in R.entries:
        after = {v for v in fl.succ[n] if (n, v) in A.feas}
        seen = reach(A, after, stop=tn)
        bad = [m for m in seen if (m in solves or m in entries)]
        c.ob(not bad, "tested", "every processed local solution is followed by the target test before anything else is searched or processed",
             solves[bad[0]].where() if bad and bad[0] in solves else "")
    yes = AND(*[A.cond(e.ret) for e in tests])
    relevant = {"solution_set", "target_objective", "exclude_out_of_bounds"}
    wr = {}
    for w in A.writes():
        if w.loc[0] == ("A", 1) and len(w.loc) > 1 and w.loc[1] in relevant:
            wr.setdefault(w.node, w)
    for e in tests:
        seen = reach(A, [v for v in fl.succ[e.node]], yes)
        bad = [m for m in seen if m in solves or m in entries]
        c.ob(not bad, "stops", "once the target is reached no further local search starts and no further solution is processed", e.where())
        bw = [wr[m] for m in seen if m in wr]
        c.ob(not bw, "stops:state", "once the target is reached the solution set stays: " + "; ".join(str(w.span) for w in bw), e.where())
    # the loop is not left early for another reason: see C08


def elapsed_atoms(A, f):
    """[(atom, limit term, elapsed term, formula 'limit exceeded')]"""
    out = []
    for a in atoms(f):
        if a[0] not in ("lt", "eq"):
            continue
        for x, y, swap in ((a[1], a[2], False), (a[2], a[1], True)):
            if is_elapsed(y) and mentions_max(x):
                out.append((a, x, y))
    return out


def is_elapsed(t):
    n = nd(t)
    if n[0] == "call" and leafname(n[1]) in ("as_secs_f64", "as_secs_f32", "as_secs", "as_millis"):
        n = nd(n[2][0])
    return n[0] == "call" and leafname(n[1]) in ("elapsed", "duration_since")


def mentions_max(t):
    b, comps = chain(t)
    n = nd(b)
    if n[0] == "call" and leafname(n[1]) in ("from_secs_f64",):
        b, comps = chain(n[2][0])
        n = nd(b)
    return "max_time" in comps or (n[0] == "phi" and "max_time" in n[3])


def instant_of(t):
    n = nd(t)
    if n[0] == "call" and leafname(n[1]).startswith("as_"):
        n = nd(n[2][0])
    return n[2][0] if n[0] == "call" and n[2] else None


@rule("C07", ("all", "nodefault", "checkpointing"))
def time_limit(c):
    """every Stage-2 local search lies behind a test of the elapsed time made in the same pass of the batch loop"""
    R = Run(c)
    A, q, fl = R.A, R.q, R.fl
    inst = set()
    for e in R.stage2:
        F = A.rel(R.H, e.node)
        cands = elapsed_atoms(A, F)
        ok = False
        for a, lim, el in cands:
            isf = a[3] == "f"
            over = B.var(("lt", lim, el, a[3]))
            mt = A.isvar(maxtime(A, lim), "Some", ["None", "Some"])
            if not sat(AND(F, mt, over), (lim, el)) and secs_ok(el, lim):
                ok = True
                inst.add((el, instant_of(el)))
        c.ob(ok, "tested", "the local search runs only if max_time is unset or not exceeded at the start of its batch", e.where())
    for el, i in inst:
        evs = [x for x in A.events() if leafname(x.path) in ("elapsed", "duration_since") and A.simp(x.ret) in subterms(el)]
        c.ob(evs and all(fl.inl[x.node] and R.H in fl.inl[x.node] for x in evs), "each-batch", "the clock is read in every pass of the batch loop",
             evs[0].where() if evs else "")
        for g, v in q.cases(i):
            nows = [x for x in A.events() if leafname(x.path) == "now" and A.simp(x.ret) == A.simp(v)]
            if not nows:
                if A.guard_unsat(g) if hasattr(A, "guard_unsat") else False:
                    continue
                c.ob(False, "clock", f"the clock starts with an Instant::now() of this run: {shown(v, 5)}", "")
                continue
            for x in nows:
                c.ob(not fl.inl[x.node], "clock:once", "the clock is started once, before the batch loop", x.where())
                after = reach(A, [x.node])
                s1 = [s for s in R.stage1 if s.node in after]
                c.ob(not s1, "clock:stage2", "the clock starts after Stage 1", x.where())
                c.ob(R.H in after, "clock:before", "the clock starts before the batch loop", x.where())
    # setter
    S = c.an("OQNLP::max_time")
    for g, v, r in returns(S, Q(S)):
        f = S.simp(project(v, "max_time"))
        c.ob(nd(f)[0] == "agg" and nd(f)[2] == "Some" and S.simp(payload(f)) == S.argterm(2), "setter", f"max_time(x) sets the limit to x: {shown(f, 4)}", "OQNLP::max_time")


def subterms(t, d=0):
    out = {t}
    n = nd(t)
    if d < 4 and n[0] == "call":
        for x in n[2]:
            out |= subterms(x, d + 1)
    return out


def maxtime(A, lim):
    """the Option<f64> the limit is the payload of"""
    t = lim
    n = nd(t)
    if n[0] == "call":
        t = n[2][0]
    n = nd(t)
    while n[0] == "fld" and n[2] != "#Some":
        t = n[1]
        n = nd(t)
    return n[1] if n[0] == "fld" else t


def secs_ok(el, lim):
    """same unit on both sides"""
    n, m = nd(el), nd(lim)
    if n[0] == "call" and leafname(n[1]) == "as_secs_f64":
        return m[0] != "call"
    if n[0] == "call" and leafname(n[1]) in ("elapsed", "duration_since"):
        return m[0] == "call" and leafname(m[1]) == "from_secs_f64"
    return False


# ------------------------------------------------------------ C08
def iterations_term(t):
    return fieldend(t, "params", "iterations")


def starts_of(R):
    """the first positions of the reference set that Stage 2 examines (None: the very first)"""
    from seqs import Seqs, interval
    A, q, fl = R.A, R.q, R.fl
    S = Seqs(A, q)
    loops, out = {}, set()
    for e in R.stage2:
        loops.setdefault(fl.inl[e.node][0], []).append(A.simp(e.args[1]))
    for h in relaxing(R):
        loops.setdefault(h, [])
    for h, xs in sorted(loops.items()):
        src, ops = S.element(h, agg("tuple", "", tuple(str(i) for i in range(len(xs))), tuple(xs)))
        if src is None:
            continue
        for g, o, base in S.walk(src):
            o = o + ops
            k = next((i for i, z in enumerate(o) if z[0] in ("batch", "filter")), len(o))
            top = o[:k]
            j = max([i for i, z in enumerate(top) if z[0] == "permute"] + [-1])
            iv = interval(A, top[j + 1:], None)
            if iv is not None:
                out.add(iv[0])
    return out


@rule("C08", ("all", "nodefault", "checkpointing"))
def budget(c):
    """Stage 2 examines the reference points at the positions start..params.iterations, each once and in order, and leaves early only at the
    time limit, at the target or with an error"""
    from seqs import Seqs, interval
    R = Run(c)
    A, q, fl = R.A, R.q, R.fl
    S = Seqs(A, q)
    # the loops that examine trials: they search, or count a rejected trial
    loops = {}
    for e in R.stage2:
        loops.setdefault(fl.inl[e.node][0], []).append(A.simp(e.args[1]))
    for h in relaxing(R):
        loops.setdefault(h, [])
    fresh = OR(*[A.guard(e.node) for e in R.stage1])
    fresh = OR(*[A.guard(e.node) for e in q.calls("run") if "ScatterSearch" in e.path]) or fresh
    cover, chains, starts, aux = {}, {}, set(), set()
    n = 0
    for h, xs in sorted(loops.items()):
        x = agg("tuple", "", tuple(str(i) for i in range(len(xs))), tuple(xs))
        src, ops = S.element(h, x)
        where = where_of(A, h)
        if src is None:
            c.ob(False, "source", f"the loop goes through the trials one by one: {ops[0][1]}", where)
            continue
        F = 0
        for g, o, base in S.walk(src):
            o = o + ops
            n += 1
            k = next((i for i, z in enumerate(o) if z[0] in ("batch", "filter")), len(o))
            top, rest = o[:k], o[k:]
            aux |= {z[1] for z in o if z[0] in ("map", "filter")}
            # what selects the trials from the reference set: from the last reordering on
            j = max([i for i, z in enumerate(top) if z[0] == "permute"] + [-1])
            low = [z for z in top[:j + 1] if z[0] not in ("map", "permute", "zip")]
            c.ob(not low, "whole-set", f"Stage 2 starts from the whole reference set: {low[:2]}", where)
            for z in o:
                if z[0] == "zip":
                    cut = [y for g2, o2, b2 in S.walk(z[1]) for y in o2 if y[0] not in ("map", "zip", "permute")]
                    c.ob(not cut, "zip", f"the objectives zipped to the points are all of them: {cut[:2]}", where)
            iv = interval(A, top[j + 1:], None)
            c.ob(iv is not None, "positions", f"the trials are consecutive reference points in order: {[z[0] for z in top]}", where)
            if iv is None:
                continue
            lo, hi = iv
            c.ob(len(hi) == 1 and iterations_term(next(iter(hi))), "bounded", f"the trials are the first params.iterations reference points: {[shown(z, 4) for z in hi]}", where)
            starts.add(lo)
            bad = [z for z in rest if z[0] not in ("batch", "filter", "map", "permute", "zip")]
            c.ob(not bad, "batch", f"every trial of a batch is examined, in order: {[(z[0],) + tuple(shown(y, 3) for y in z[1:]) for z in bad[:2]]}", where)
            f = g
            for z in rest:
                if z[0] == "filter":
                    f = AND(f, z[2])
            F = OR(F, f)
        pre = OR(*[f for (u, v), f in A.region(R.H)[1].items() if v == h and u not in fl.loops[h]]) if h != R.H else 1
        cover[h] = AND(pre, F)
    c.floor(n, 1, "trials", "trial sources")
    c.floor(len(cover), 1, "loops", "loops that examine trials")
    # (2) the first position
    for lo in starts:
        k = 0
        for g, v in (q.cases(lo) if lo is not None else [(1, const(0, "usize"))]):
            if sat(AND(g, fresh)):
                k += 1
                c.ob(nd(v)[0] == "c" and nd(v)[1] == 0, "start", f"a fresh run starts with the first reference point: {shown(v, 4)}", "src/oqnlp.rs run")
        c.ob(k > 0, "start", "the first position of a fresh run is known", "src/oqnlp.rs run")
    # (3) each trial of a batch is examined in exactly one of the loops
    skip = OR(*[before_start(A, f, starts) for f in cover.values()], 0)
    nonempty = emptiness(R, S, loops, cover)
    bodyf = A.region(R.H)[1]
    for p in fl.pred[R.H]:
        if (p, R.H) in fl.back and bodyf.get((p, R.H), 0):
            f = AND(A.guard(R.H), bodyf[(p, R.H)], NOT(skip), nonempty)
            miss = AND(f, NOT(OR(*cover.values())))
            c.ob(not sat(miss), "covered", f"every trial of a completed batch is examined{describe(miss)}", exit_where(A, p))
    hs = sorted(cover)
    for i, h in enumerate(hs):
        for k in hs[i + 1:]:
            c.ob(not sat(AND(cover[h], cover[k])), "once", f"no trial is examined twice ({where_of(A, h)}, {where_of(A, k)})", where_of(A, h))
    # (4) early exits of the batch loop and of the loops inside that handle the trials
    tests = OR(*[A.cond(e.ret) for e in q.calls("target_objective_reached")])
    exits = set(A.exits())
    live = {u for u in fl.order if reach(A, [u]) & exits}
    k = 0
    for h in [R.H] + sorted(set(cover) | {z for z in aux if z in fl.loops}):
        end = S.done(h)
        if h == R.H:
            end = OR(end, used_up(A, S, h))
        for (u, v), f in S.exits(h).items():
            if v not in live:
                continue
            k += 1
            c.ob(implies(f, OR(tests, end, reasons(A, f, h in (R.H,) or R.H in fl.inl[h]))), "early-exit", "Stage 2 is left early only at the time limit, at the target or with an error", exit_where(A, u))
    c.floor(k, 2, "exits", "ways out of the loops")
    # (5) a trial that passes the filters is searched
    for h in sorted({fl.inl[e.node][0] for e in R.stage2}):
        solves = [e for e in R.stage2 if fl.inl[e.node][0] == h]
        pts = {A.simp(e.args[1]) for e in solves}
        for x in pts:
            here = [e for e in solves if A.simp(e.args[1]) == x]
            F = OR(*[A.rel(h, e.node) for e in here])
            gf = gate_formula(R, x, F, tuple(e.node for e in here))
            for p in fl.pred[h]:
                if (p, h) in fl.back:
                    bf = A.region(h)[1].get((p, h), 0)
                    if bf == 0:
                        continue
                    if gf is not None:
                        c.ob(not sat(AND(bf, gf, NOT(F), NOT(skip_formula(A, h, pts)))), "searched", "a trial that passes both filters is searched", here[0].where())
                    elif len(pts) == 1:
                        c.ob(not sat(AND(bf, NOT(F))), "searched", "a candidate set aside for a local search is searched", here[0].where())


@rule("C04", ("all", "nodefault", "checkpointing"))
def offered(c):
    """every local solution found is offered to the solution set exactly once: process_local_solution gets the result of each search"""
    from seqs import Seqs
    R = Run(c, OPQ + ("process_local_solution",))
    A, q, fl = R.A, R.q, R.fl
    S = Seqs(A, q)
    offers = list(q.calls("process_local_solution"))
    c.floor(len(offers), 2, "offers", "solutions offered to the solution set")

    def result_of(t):
        """the search whose solution t is"""
        t = A.simp(t)
        b, comps = chain(t)
        comps = [k for k in comps if not k.startswith("#")]
        es = [e for e in R.solves if A.simp(e.ret) == A.simp(b)]
        return es, comps

    def solution(t, d=0):
        """[(search, collections it went through)] t is the solution of"""
        out = []
        for g, y in q.cases(t):
            es, comps = result_of(y)
            if es:
                for e in es:
                    full = ["0"] + (["0"] if plain_leaf(e.path) == "solve_with_tracking" else [])
                    out.append((e if comps == full else None, (), g))
                continue
            acc, comps, full = q.access(y)
            if acc is None or nd(acc)[0] != "elem" or d > 6:
                out.append((None, (), g))
                continue
            vs = q.elem_of(acc)
            if not vs or (len(vs) == 1 and vs[0][0] == full):
                out.append((None, (), g))
                continue
            for v, p in vs:
                z = v
                for k in comps:
                    z = project(z, k)
                if z != UNDEF:
                    out += [(e, (A.simp(nd(acc)[1]),) + w, g2) for e, w, g2 in solution(A.simp(z), d + 1)]
        return out
    given = {}
    for o in offers:
        ss = solution(A.simp(o.args[1]))
        c.ob(bool(ss) and all(e is not None for e, w, g in ss), "result", f"what is offered is the solution of a local search: {shown(A.simp(o.args[1]), 5)}", o.where())
        for e, w, g in ss:
            if e is not None:
                given.setdefault(e.node, []).append((o, w, g))
    for e in R.solves:
        gs = given.get(e.node, [])
        c.ob(bool(gs), "offered", "the solution of the local search is offered to the solution set", e.where())
        here = [o for o, w, g in gs if not w]
        far = [(o, w) for o, w, g in gs if w]
        h = fl.inl[e.node][0] if fl.inl[e.node] else None
        # (a) in the same pass: every way to complete the pass after the search goes through an offer
        if here and h is None:
            got = AND(A.guard(e.node), A.isvar(A.simp(e.ret), "Ok", ["Ok", "Err"]), NOT(OR(*[A.guard(o.node) for o in here])))
            lost = [v for g, v, r in returns(A, q) if not (nd(v)[0] == "agg" and nd(v)[2] == "Err") and sat(AND(g, got))]
            c.ob(not lost, "offered:always", "a found solution is offered before the run goes on", e.where())
        elif here:
            ends = {p for p in fl.pred[h] if (p, h) in fl.back}
            stop = {o.node for o in here}
            T = reach(A, [v for v in fl.succ[e.node] if (e.node, v) in A.feas], stop=stop | {h})
            lost = [n for n in (T & ends) - stop if not failed(A, q, n, h, e)]
            c.ob(not lost, "offered:always", "a found solution is offered before the next trial", e.where())
        if here:
            after = reach(A, [v for o in here for v in fl.succ[o.node] if (o.node, v) in A.feas], stop={h} if h is not None else set())
            again = [o for o in here if o.node in after and (h is None or o.node in fl.loops[h])]
            c.ob(not again, "offered:once", "a found solution is offered once", e.where())
        # (b) kept in a collection that a later loop goes through
        if far:
            F = 0
            for o, w in far:
                ho = fl.inl[o.node][0] if fl.inl[o.node] else None
                if ho is None:
                    continue
                src, ops = S.element(ho, A.simp(o.args[1]))
                okc = src is not None and all(z[0] in ("map", "permute", "zip") for z in ops)
                if src is not None:
                    for g, oo, b in S.walk(src):
                        # from the searching loop on nothing is left out
                        k = [i for i, z in enumerate(oo) if z[0] in ("map", "filter") and z[1] == h]
                        okc = okc and bool(k) and oo[k[0]][0] == "map" and all(z[0] in ("map", "permute", "zip") for z in oo[k[0]:])
                c.ob(okc, "offered:each", "every solution found in the batch is offered", o.where())
                T = reach(A, [ho], stop={o.node})
                ends = {p for p in fl.pred[ho] if (p, ho) in fl.back}
                c.ob(not (T & ends & fl.loops[ho]) - {o.node} or implies(OR(*[A.region(ho)[1].get((p, ho), 0) for p in ends]), A.rel(ho, o.node)), "offered:always",
                     "every pass over the found solutions offers its solution", o.where())
                pre = OR(*[f for (u, v), f in A.region(R.H)[1].items() if v == ho and u not in fl.loops[ho]])
                F = OR(F, pre)
            pre = OR(*[f for (u, v), f in A.region(R.H)[1].items() if v == h and u not in fl.loops[h]])
            for p in fl.pred[R.H]:
                if (p, R.H) in fl.back:
                    bf = A.region(R.H)[1].get((p, R.H), 0)
                    c.ob(not sat(AND(bf, pre, NOT(F))), "offered:later", "the solutions found in a batch are offered before the next batch", e.where())


@rule("C04", ("all", "nodefault", "checkpointing"))
def set_owner(c):
    """during run() only process_local_solution (and the restoring of a checkpoint) writes the solution set, and what run() returns is that set"""
    R = Run(c)
    A, q = R.A, R.q
    n = 0
    for w in A.writes():
        if w.loc[:2] != loc(1, "solution_set") or A.guard(w.node) == 0 or w.node not in R.fl.num:
            continue
        if A.simp(w.val) == A.simp(A.read(A.sin[w.node], w.loc)):
            continue
        x, inside = A.nodes[w.node].ctx, False
        while x is not None:
            inside = inside or plain_leaf(x.body.path) in ("process_local_solution", "restore_from_checkpoint")
            x = x.parent
        n += 1
        c.ob(inside, "writer", f"the solution set is changed only by process_local_solution or by restoring a checkpoint", w.span)
    c.floor(n, 2, "writers", "writes of the solution set")
    k = 0
    changes = {w.node for w in A.writes() if w.loc[:2] == loc(1, "solution_set") and A.guard(w.node) != 0 and w.node in R.fl.num
               and A.simp(w.val) != A.simp(A.read(A.sin[w.node], w.loc))}
    for r in A.exits():
        for g, v in q.cases(A.ret_at(r)):
            g = AND(g, A.guard(r))
            if not sat(g):
                continue
            v = A.simp(v)
            if nd(v)[0] == "agg" and nd(v)[2] == "Err":
                continue
            k += 1
            ok = False
            if nd(v)[0] == "agg" and nd(v)[2] == "Ok":
                ok = current(A, A.simp(payload(v, "Ok")), loc(1, "solution_set"), changes, g)
            c.ob(ok, "returned", f"run() returns the solution set as it stands: {shown(v, 5)}", "src/oqnlp.rs run")
    c.floor(k, 1, "returned", "values run() returns")


@rule("C07", ("all", "nodefault", "checkpointing"))
def ends_in_error(c):
    """an error that run() makes itself, rather than hands on from a failed step, says that there is no solution: the time limit is no error"""
    R = Run(c)
    A, q = R.A, R.q
    n = 0
    for r in A.exits():
        now = A.simp(A.read(A.sout[r], loc(1, "solution_set")))
        some = A.isvar(now, "Some", ["None", "Some"])
        for g, v in q.cases(A.ret_at(r)):
            g = AND(g, A.guard(r))
            v = A.simp(v)
            if not sat(g) or not (nd(v)[0] == "agg" and nd(v)[2] == "Err"):
                continue
            n += 1
            carried = any(nd(t)[0] in ("phi", "elem", "next") or nd(t)[0] == "fld" and nd(t)[2] in ("#Err", "#Break") for t in terms.subterms(v))
            c.ob(carried or not sat(AND(g, some)), "own-error", f"run() fails with an error of its own only when there is no solution: {shown(v, 5)}", "src/oqnlp.rs run")
    c.floor(n, 2, "errors", "errors run() returns")


def current(A, t, l, changes, g):
    """t is the payload of the location l, read where no later node changes it"""
    for _ in range(6):
        n = nd(t)
        if n[0] == "phi" and n[1] == A.uid:
            return n[3][:len(l)] == l and not (reach(A, [n[2]], g) & changes)
        if n[0] == "fld":
            t = n[1]
            continue
        return False
    return False


def failed(A, q, n, h, e):
    """node n is only reached after e when the search failed"""
    ok = A.isvar(A.simp(e.ret), "Ok", ["Ok", "Err"])
    return not sat(AND(A.rel(h, n), A.rel(h, e.node), ok))


def reasons(A, f, timed):
    """conditions in f that may end Stage 2 early: an error, the time limit"""
    why = 0
    for a in atoms(f):
        if a[0] == "is" and a[2] in ("Ok", "Err") and nd(chain(a[1])[0])[0] in ("call", "phi", "elem", "next"):
            why = OR(why, NOT(B.var(a)) if a[2] == "Ok" else B.var(a))
        if a[0] == "exists":
            for b in atoms(a[2]):
                if b[0] == "is" and b[2] in ("Ok", "Err"):
                    why = OR(why, B.var(a))
    if timed:
        for a, lim, el in elapsed_atoms(A, f):
            why = OR(why, B.var(("lt", lim, el, a[3])))
    return why


def used_up(A, S, h):
    """the slice of remaining trials is empty"""
    r = 0
    for f in S.exits(h).values():
        for a in atoms(f):
            if a[0] == "eq" and a[3] == "i":
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    n = nd(x)
                    if n[0] == "call" and n[1] == "len" and nd(y)[0] == "c" and nd(y)[1] == 0:
                        p = nd(A.simp(n[2][0]))
                        if p[0] == "phi" and p[2] == h and any(o and o[-1][0] == "rest" for g, o, b in S.walk(n[2][0])):
                            r = OR(r, B.var(a))
    return r


def relaxing(R):
    """loops that relax the merit threshold"""
    A, fl = R.A, R.fl
    out = set()
    for w in A.writes():
        if w.loc == loc(1, "merit_filter", "threshold") and fl.inl[w.node] and A.guard(w.node) != 0 and relaxed(A, A.simp(w.val), R.self_) is not None:
            out.add(fl.inl[w.node][0])
    return out


def before_start(A, f, starts):
    """the trial lies before the first position (no such trial is in a batch)"""
    r = 0
    for a in atoms(f):
        if a[0] == "lt" and a[3] == "i":
            for x, s in ((a[1], a[2]), (a[2], a[1])):
                if s in starts and nd(x)[0] in ("fld", "idx", "elem"):
                    r = OR(r, A.cond(binop("Lt", x, s, "usize")))
    return r


def emptiness(R, S, loops, cover):
    """a collection that holds the trial is not empty: not (filter and len = 0)"""
    A = R.A
    r = 1
    fs = [f for f in cover.values()] + [f for e, f in A.region(R.H)[1].items() if e in R.fl.back]
    for f in fs:
        for a in atoms(f):
            if a[0] not in ("eq", "lt") or a[3] != "i":
                continue
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                n, m = nd(x), nd(y)
                if n[0] == "call" and n[1] == "len" and m[0] == "c":
                    fl = 0
                    for g, o, b in S.walk(n[2][0]):
                        if not any(z[0] == "batch" for z in o):
                            g = 0
                        k = max([i for i, z in enumerate(o) if z[0] == "batch"] + [-1])
                        for z in o[k + 1:]:
                            if z[0] == "filter":
                                g = AND(g, z[2])
                            elif z[0] not in ("map", "permute", "zip"):
                                g = 0
                        fl = OR(fl, g)
                    pos = NOT(B.var(("eq",) + tuple(sorted((x, const(0, "usize")))) + ("i",)))
                    # a count below one is zero
                    small = NOT(A.cond(binop("Lt", x, const(1, "usize"), "usize")))
                    r = AND(r, OR(NOT(fl), AND(pos, small)))
    return r


def describe(f):
    if f == 0:
        return ""
    f = B.AND(B.AND(f, tri(f)), isx(f))
    if f == 0:
        return ""
    return ": not when " + ", ".join(("" if v else "not ") + shown_atom(B.vars[i]) for i, v in list(B.one_sat(f).items())[-int(__import__("os").environ.get("DN", 4)):])


def shown_atom(a):
    if a[0] == "exists":
        return f"exists({', '.join(shown(t, 3) for t in a[1])})"
    return f"{a[0]}({', '.join(shown(t, 3) if isinstance(t, int) else str(t) for t in a[1:3])})"


def trial_vec(R, e):
    return bool(trial_domains(R, mk("elem", R.A.simp(e.args[0]), "*")))


def exit_where(A, u):
    n = A.nodes[u]
    return f"{plain_leaf(n.ctx.user().body.path)}"


def trial_domains(R, x, depth=0, seen=None):
    """collections the start point x was taken from, innermost source last"""
    A, q = R.A, R.q
    seen = seen if seen is not None else set()
    out = []
    if depth > 14 or x in seen:
        return out
    seen.add(x)
    for g, y in q.cases(x):
        acc, comps, full = q.access(y)
        if acc is None:
            continue
        n = nd(acc)
        d = n[1] if n[0] in ("elem", "at") else n[2][0]
        out.append(A.simp(d))
        for v, p in q.elem_of(acc):
            z = v
            for k in comps:
                z = project(z, k)
            if z != UNDEF and z != y:
                out += trial_domains(R, A.simp(z), depth + 1, seen)
    return out


def bounded(A, d):
    """collection d has at most params.iterations elements"""
    n = nd(d)
    if n[0] == "agg" and n[1] == "models::Take":
        return iterations_term(A.simp(n[4][1]))
    if n[0] == "agg" and n[1].startswith("models::"):
        return bounded(A, A.simp(n[4][0]))
    if n[0] == "at" and is_range(n[2]):
        e = nd(nd(n[2])[4][-1])
        return e[0] == "call" and leafname(e[1]) == "min" and any(iterations_term(A.simp(x)) for x in e[2])
    return False


# ------------------------------------------------------------ C13: a failed evaluation ends the run with that error
def raw(A, a, r, d=0):
    """the value a is the result r, or an error made from it"""
    a = A.simp(a)
    n = nd(a)
    if a == r:
        return True
    if d < 6 and n[0] == "agg":
        return any(raw(A, x, r, d + 1) for x in n[4]) and n[2] not in ("Ok", "Some")
    if d < 6 and n[0] == "fld" and n[2] == "#Err" and n[1] == r:
        return True
    return d < 6 and n[0] == "phi" and n[1] == A.uid and n[2] not in A.flow.loops and all(
        raw(A, o, r, d + 1) for o in A.phi_ops(a).values())


def failure_ends(c, A, q, T, e, key, what, forbidden=()):
    """if call e fails, the entry returns Err on every path that follows"""
    start = [(e.node, s) for s in A.flow.succ[e.node] if (e.node, s) in A.feas]
    try:
        nodes, exits = T.follow(start, {e.ret: "Err"})
    except RuntimeError:        # too many paths: does the loop around the call go on, with nothing of the result kept?
        from trace import Trace
        hs = A.flow.inl[e.node][:1]
        try:
            within = A.flow.loops[hs[0]] if hs else ()
            nodes, exits = Trace(A, variants=("Err", "Break", "Ok", "Continue", "None", "Some")).follow(
                start, {e.ret: "Err"}, stop={n for n in A.flow.order if n not in within or n in hs})
        except RuntimeError:
            return
        if not hs or hs[0] not in nodes:
            return
        ops = [o for (n, l), m in A.phis.items() if n == hs[0] for p, o in m.items() if (p, n) in A.feas and p in within and p in nodes]
        carried = any(x == e.ret for o in ops for x in terms.subterms(A.simp(o)))
        stored = any(x.node in nodes and plain_leaf(x.path) in ("push", "insert", "push_back")
                     and any(raw(A, a, e.ret) for a in x.args[1:]) for x in A.events())
        c.ob(carried or stored, key + ":dropped", f"{what} that fails is not passed over or replaced", e.where())
        return
    kept = [x for x in A.events() if x.node in nodes and plain_leaf(x.path) in ("push", "insert", "push_back")
            and any(e.ret in subterms(A.simp(a)) for a in x.args[1:])]
    if kept:
        return      # the result itself is kept in a collection: followed by the flow rules, not here
    bad = [v for n, v in exits if not (nd(v)[0] == "agg" and nd(v)[2] == "Err")
           and not (v == e.ret or A.simp(v) == A.simp(e.ret))]
    c.ob(not bad, key + ":returned", f"{what} that fails ends the run with an error; a path returns {shown(bad[0], 4) if bad else ''}", e.where())
    c.ob(bool(exits), key + ":ends", f"{what} that fails lets the run return", e.where())
    more = [f for f in forbidden if f.node in nodes]
    c.ob(not more, key + ":stops", f"{what} that fails is not followed by further searches: {more[0].where() if more else ''}", e.where())


@rule("C13", ("all", "nodefault", "rayon"))
def errors_run(c):
    """in run(): a failed Stage-1 run, local search or evaluation makes run() return Err, with nothing searched after it"""
    from trace import Trace
    R = Run(c)
    A, q = R.A, R.q
    T = Trace(A)
    es = [(e, "a local search") for e in R.solves] + [(e, "an evaluation") for e in q.calls("objective")] + \
         [(e, "Stage 1") for e in q.calls("run") if "ScatterSearch" in e.path]
    c.floor(len(es), 3, "calls", "calls that evaluate")
    for e, what in es:
        failure_ends(c, A, q, T, e, plain_leaf(e.path), what, [x for x, _ in es if x is not e])


@rule("C13", ("all", "nodefault", "rayon"))
def errors_stage1(c):
    """in Stage 1: a failed evaluation of an initial reference point is returned; a trial point whose evaluation fails enters nothing"""
    from trace import Trace
    A = c.an("ScatterSearch::run", ("observers",))
    q = Q(A)
    T = Trace(A, variants=("Err", "Break", "None"))
    es = list(q.calls("objective"))
    c.floor(len(es), 2, "stage1-calls", "evaluations in Stage 1")

    def outer(e):
        return A.flow.inl[e.node][-1] if A.flow.inl[e.node] else e.node
    for e in es:
        later = reach(A, [outer(e)])
        first = any(x.node in later and outer(x) != outer(e) for x in es)
        if first:
            failure_ends(c, A, q, T, e, "initial", "the evaluation of an initial reference point")
            continue
        h = A.flow.inl[e.node][:1]
        try:
            nodes, exits = T.follow([(e.node, s) for s in A.flow.succ[e.node] if (e.node, s) in A.feas], {e.ret: "Err"}, stop=h)
        except RuntimeError:
            continue
        ps = [x for x in A.events() if x.node in nodes and plain_leaf(x.path) in ("push", "insert", "push_back", "extend")]
        c.ob(not ps, "trial:skipped", "a trial point whose evaluation fails is not kept", ps[0].where() if ps else e.where())
        c.ob(not exits, "trial:goes-on", "a trial point whose evaluation fails does not end Stage 1", e.where())
