"""What the solution set and the checkpoint show of themselves: accessors and printed forms."""
import ast
import re
from lib import *
from runlib import *
from r_solver import path_of
from seqs import Seqs

WRITES = ("write_fmt", "push_str", "write_str", "push", "write", "print", "_print")
CONFIGS = ("all", "nodefault")


def literal(t):
    """the bytes or text of a constant"""
    n = nd(t)
    if n[0] != "c" or not isinstance(n[1], str):
        return None
    s = n[1]
    s = s[6:] if s.startswith("const ") else s
    try:
        if s.startswith('b"'):
            return ast.literal_eval(s)
        if s.startswith('"'):
            return s[1:-1].replace("\\n", "\n").encode("utf-8")
    except (ValueError, SyntaxError):
        return None
    return None


class Shown:
    """the values an analysed function prints, each with the call that puts its text into the output"""

    def __init__(self, A, q):
        self.A, self.q, self.fl = A, q, A.flow
        self.sinks = [e for e in A.events() if leafname(e.path) in WRITES]
        self.items = []         # (value term, formatting event, sinks)
        for e in A.events():
            if leafname(e.path).startswith("new_") and "Argument" in e.path and e.args:
                self.items.append((A.simp(e.args[0]), e, [s for s in self.sinks if any(e.ret in set(subterms(a)) for a in s.args)]))
        # values pushed as they are (a ready string)
        for s in self.sinks:
            if leafname(s.path) in ("push_str", "write_str") and len(s.args) > 1:
                self.items.append((A.simp(s.args[1]), s, [s]))
        self.oks = [(s, A.isvar(s.ret, "Ok", ["Ok", "Err"])) for s in self.sinks if leafname(s.path).startswith("write")]

    def fine(self, f):
        """f while every write succeeds"""
        for s, k in self.oks:
            f = AND(f, k)
        return f

    def under(self, h, s):
        return self.A.rel(h, s.node) if h is not None else self.A.guard(s.node)

    def inner(self, n):
        hs = self.fl.inl.get(n) or ()
        return hs[0] if hs else None

    def find(self, test, h):
        """(when the output within a round of h, or the whole function, has a value test accepts; the events)"""
        f, es = 0, []
        for t, e, ss in self.items:
            for g, x in self.q.cases(t):
                if not test(self.A.simp(x)):
                    continue
                for s in ss:
                    if self.inner(s.node) == h:
                        f = OR(f, AND(self.under(h, s), g))
                        es.append(s)
        return f, es

    def back(self, h):
        r = 0
        for p in self.fl.pred[h]:
            if (p, h) in self.fl.back:
                r = OR(r, self.A.region(h)[1].get((p, h), 0))
        return r


def text_of(t):
    out = b""
    for s in subterms(t):
        x = literal(s)
        if x:
            out += x
    return out.decode("utf-8", "replace")


def position(A, x, src):
    """x is the 1-based position of the element the loop handles"""
    n = nd(x)
    if n[0] == "bin" and n[1] == "Add":
        for a, b in ((n[2], n[3]), (n[3], n[2])):
            if nd(a)[0] == "c" and nd(a)[1] == 1:
                m = nd(A.simp(b))
                if m[0] == "idx":
                    return A.simp(m[1]) == src or src in set(subterms(m[1]))
                return m[0] == "elem" and is_range(m[1]) and str(nd(nd(A.simp(m[1]))[4][0])[1]) == "0" or m[0] == "phi"
    if n[0] == "elem":
        m = nd(A.simp(n[1]))
        return m[0] == "agg" and "Range" in m[1] and str(nd(m[4][0])[1]) == "1"
    return False


def listing_of(c, A, q, name, key, where, formatter):
    P = Shown(A, q)
    S = Seqs(A, q)
    me = arg(A, 1)
    sols = A.simp(field(me, "solutions"))
    fine = P.fine(1)
    # the header
    f, es = P.find(lambda x: call_of(x, "len") is not None and call_of(x, "len")[0] == sols, None)
    c.ob(not sat(AND(fine, NOT(f))) and bool(es), f"{key}:total", f"{name} always shows the number of solutions", where)
    best = [e for e in q.calls("best_solution")]

    def is_best(x):
        n = nd(x)
        return n[0] == "fld" and n[2] == "objective" and call_of(n[1], "best_solution") is not None and call_of(n[1], "best_solution")[0] == me
    f, es = P.find(is_best, None)
    some_sol = NOT(A.cond(binop("Eq", call_len(A, sols), const(0, "usize"), "usize")))
    for e in best:
        some_sol = AND(some_sol, A.isvar(e.ret, "Some", ["None", "Some"]))
    c.ob(bool(es) and not sat(AND(fine, some_sol, NOT(f))), f"{key}:best", f"{name} shows the objective of the best solution whenever there is one", where)
    # the solutions
    hs = set()

    def part(k):
        def test(x):
            n = nd(x)
            return n[0] == "fld" and n[2] == k and the_element(A, n[1], sols)
        return test
    for t, e, ss in P.items:
        for g, x in q.cases(t):
            if part("objective")(A.simp(x)):
                hs |= {P.inner(s.node) for s in ss}
    hs.discard(None)
    c.ob(len(hs) == 1, f"{key}:loop", f"{name} lists the solutions in one loop", where)
    for h in hs:
        for k in ("objective", "point"):
            f, es = P.find(part(k), h)
            c.ob(bool(es) and not sat(AND(fine, P.back(h), NOT(f))), f"{key}:{k}", f"{name} shows the {k} of every solution it goes through", where)
            c.ob(all(not sat(AND(P.under(h, x), P.under(h, y))) for i, x in enumerate(es) for y in es[:i] if x.node != y.node), f"{key}:{k}:once", f"{name} shows the {k} of a solution once", where)
            for t, e, ss in P.items:
                for g, x in q.cases(t):
                    if part(k)(A.simp(x)) and any(P.inner(s.node) == h for s in ss):
                        src, ops = S.element(h, A.simp(x))
                        c.ob(src is not None and A.simp(src) == sols and not [o for o in ops if o[0] not in ("zip", "map")], f"{key}:{k}:all",
                             f"{name} goes through all solutions in their order: {shown(src, 4) if src is not None else None} {[o[0] for o in ops]}", where)
        f, es = P.find(lambda x: position(A, x, sols), h)
        c.ob(bool(es) and not sat(AND(fine, P.back(h), NOT(f))), f"{key}:number", f"{name} numbers the solutions from 1", where)
        ex = 0
        for (u, v), g in S.exits(h).items():
            ex = OR(ex, g)
        c.ob(not sat(AND(fine, ex, NOT(S.done(h)))), f"{key}:end", f"{name} stops listing after the last solution only", where)
    return P, S, hs


def the_element(A, t, src):
    """the element of src that the loop handles"""
    n = nd(A.simp(t))
    if n[0] == "at" and A.simp(n[1]) == src:
        return nd(A.simp(n[2]))[0] in ("elem", "idx", "phi")
    return n[0] == "elem" and A.simp(n[1]) == src


def call_len(A, t):
    for e in A.events():
        if leafname(e.path) == "len" and e.args and A.simp(e.args[0]) == t:
            return A.simp(e.ret)
    return mk("call", "len", (t,), "")


@rule("C34", CONFIGS)
def accessors(c):
    """len, is_empty and indexing read the stored solutions"""
    def value(name):
        A = c.an(name)
        q = Q(A)
        out = returns(A, q)
        return A, q, out, A.simp(field(arg(A, 1), "solutions"))
    A, q, out, sols = value("SolutionSet::len")
    for f, v, r in out:
        c.ob(call_of(v, "len") is not None and A.simp(call_of(v, "len")[0]) == sols, "len", f"len() is the number of stored solutions: {shown(v, 4)}", "src/types.rs len")
    A, q, out, sols = value("SolutionSet::is_empty")
    e = A.cond(binop("Eq", mk("call", "len", (sols,), ""), const(0, "usize"), "usize"))
    for f, v, r in out:
        c.ob(not sat(AND(f, A.cond(v), NOT(e))) and not sat(AND(f, NOT(A.cond(v)), e)), "empty", f"is_empty() iff no solution is stored: {shown(v, 4)}", "src/types.rs is_empty")
    A, q, out, sols = value("SolutionSet::solutions")
    for f, v, r in out:
        n = nd(A.simp(v))
        c.ob(A.simp(v) == sols or n[0] == "call" and leafname(n[1]) in ("iter", "into_iter") and A.simp(n[2][0]) == sols, "solutions", f"solutions() goes through the stored solutions: {shown(v, 4)}", "src/types.rs solutions")
    k = 0
    for p in c.prog().bodies:
        if p.endswith("SolutionSet as std::ops::Index<usize>>::index"):
            A = c.an(p)
            q = Q(A)
            for f, v, r in returns(A, q):
                n = nd(A.simp(v))
                k += 1
                c.ob(n[0] == "at" and A.simp(n[1]) == A.simp(field(arg(A, 1), "solutions")) and A.simp(n[2]) == arg(A, 2), "index", f"set[i] is the stored solution i: {shown(v, 4)}", "src/types.rs index")
    c.floor(k, 1, "index", "indexing results")


@rule("C34", CONFIGS)
def printed(c):
    """the printed forms of the solution set list every stored solution once, in order, under its number"""
    p = [p for p in c.prog().bodies if p.endswith("types::SolutionSet as std::fmt::Display>::fmt")]
    c.need(p, "Display", "Display of SolutionSet")
    A = c.an(p[0], ("best_solution",))
    listing_of(c, A, Q(A), "Display", "display", "src/types.rs fmt", True)
    A = c.an("SolutionSet::display_with_constraints", ("best_solution",))
    q = Q(A)
    P, S, hs = listing_of(c, A, q, "display_with_constraints", "constraints", "src/types.rs display_with_constraints", False)
    where = "src/types.rs display_with_constraints"
    fine = P.fine(1)
    cs = [e for e in q.calls("constraints")]
    c.floor(len(cs), 1, "constraints", "the problem's constraints")
    dom = {A.simp(e.ret) for e in cs}
    k = 0
    for e in A.events():
        if not e.path.endswith("dyn-call") and leafname(e.path) != "dyn-call":
            continue
        h = P.inner(e.node)
        if h is None or not (set(P.fl.inl[e.node]) & hs):
            c.ob(False, "constraint:where", "constraints are evaluated for each solution listed", e.where())
            continue
        k += 1
        val = A.simp(e.ret)
        for g, x in q.cases(A.simp(e.args[1])):
            x = A.simp(x)
            y = nd(x)
            while y[0] == "call" and leafname(y[1]) in ("to_vec", "to_owned", "clone", "as_slice", "collect") and y[2]:
                x = A.simp(y[2][0])
                y = nd(x)
            c.ob(y[0] == "fld" and y[2] == "point" and the_element(A, y[1], A.simp(field(arg(A, 1), "solutions"))), "constraint:point",
                 f"each constraint is evaluated at the point it is listed under: {shown(x, 4)}", e.where())
        for g, x in q.cases(A.simp(e.args[0])):
            n = nd(A.simp(x))
            c.ob(n[0] in ("elem", "at") and A.simp(n[1]) in dom, "constraint:own", f"the constraints shown are the problem's: {shown(x, 4)}", e.where())
            src, ops = S.element(h, A.simp(x))
            c.ob(src is not None and A.simp(src) in dom and not [o for o in ops if o[0] not in ("zip", "map")], "constraint:all", "all constraints are gone through in order", e.where())
        ok = A.cond(binop("Ge", val, mk("c", "0.0", "f64"), "f64"))
        f, es = P.find(lambda x: x == val, h)
        c.ob(bool(es) and not sat(AND(fine, P.back(h), NOT(f))), "constraint:value", "the value of every constraint is shown", e.where())
        f, es = P.find(lambda x: position(A, x, A.simp(cs[0].ret)), h)
        c.ob(bool(es) and not sat(AND(fine, P.back(h), NOT(f))), "constraint:number", "the constraints are numbered from 1", e.where())
        good = bad = 0
        for t, ev, ss in P.items:
            for s in ss:
                if P.inner(s.node) != h:
                    continue
                for g, x in q.cases(t):
                    x = A.simp(x)
                    G = AND(P.under(h, s), g)
                    neg = any(nd(z)[0] == "un" and nd(z)[1] == "Neg" and A.simp(nd(z)[2]) == val or nd(z)[0] == "call" and leafname(nd(z)[1]) == "abs" and A.simp(nd(z)[2][0]) == val for z in subterms(x))
                    w = text_of(x) if nd(x)[0] in ("c", "call", "agg") and x != val else ""
                    if "violated" in w or "✗" in w:
                        c.ob(not sat(AND(G, ok)), "constraint:violated", f"a constraint is shown as violated only if its value is not at least 0: {A.show_f(g)[:120]}", e.where())
                        bad = OR(bad, G)
                        if "violated" in w:
                            c.ob(neg, "constraint:amount", f"the violation shown is the negated value: {shown(x, 6)[:120]}", e.where())
                    elif "satisfied" in w or "✓" in w:
                        c.ob(not sat(AND(G, NOT(ok))), "constraint:satisfied", f"a constraint is shown as satisfied only if its value is at least 0: {A.show_f(g)[:120]}", e.where())
                        good = OR(good, G)
        # its description
        ds = A.simp(payload(arg(A, 3)))
        shown_at = 0
        for t, ev, ss in P.items:
            for g, x in q.cases(t):
                n = nd(A.simp(x))
                y = call_of(A.simp(x), "get") or (n[1:3] if n[0] == "at" else None)
                if y is not None and A.simp(y[0]) == ds:
                    i = A.simp(y[1])
                    m = nd(i)
                    c.ob(m[0] in ("idx", "elem") and set(subterms(i)) & dom, "constraint:description", f"a constraint is shown with its own description: {shown(x, 5)}", ev.where())
                    shown_at = OR(shown_at, A.rel(h, ev.node))
                    inside = A.cond(binop("Lt", i, call_len(A, ds), "usize"))
                    if n[0] != "at":
                        for o in q.calls("get"):
                            if A.simp(o.ret) in set(subterms(A.simp(x))):
                                inside = A.isvar(A.simp(o.ret), "Some", ["None", "Some"])
                    c.ob(not sat(AND(P.back(h), some(A, arg(A, 3)), inside, NOT(shown_at))), "constraint:described", "a constraint that has a description is shown with it", ev.where())
        c.ob(sat(shown_at), "constraint:descriptions", "descriptions are shown", e.where())
        b = P.back(h)
        c.ob(not sat(AND(b, ok, NOT(good))) and not sat(AND(b, NOT(ok), NOT(bad))), "constraint:status", "every constraint is shown as satisfied or violated", e.where())
        for h0 in hs:
            have = NOT(A.cond(binop("Eq", call_len(A, A.simp(cs[0].ret)), const(0, "usize"), "usize")))
            c.ob(not sat(AND(P.back(h0), have, NOT(A.rel(h0, h)))), "constraint:listed", "the constraints are listed under every solution", e.where())
    c.floor(k, 1, "constraint-calls", "constraint evaluations")
    # the automatic choice
    A = c.an("SolutionSet::display_with_problem", ("display_with_constraints", "SolutionSet as std::fmt::Display"))
    q = Q(A)
    me, pr = arg(A, 1), arg(A, 2)
    cons = [e for e in q.calls("constraints")]
    c.need(cons, "display_with_problem", "the problem's constraints")
    for f, v, r in returns(A, q):
        for g, x in q.cases(v):
            G = AND(f, g)
            if not sat(G):
                continue
            y = call_of(A.simp(x), "display_with_constraints")
            none = A.cond(binop("Eq", call_len(A, A.simp(cons[0].ret)), const(0, "usize"), "usize"))
            if y is not None:
                c.ob(A.simp(y[0]) == me and A.simp(y[1]) == pr, "problem:own", "display_with_problem shows this set with this problem's constraints", "src/types.rs display_with_problem")
            else:
                c.ob(not sat(AND(G, NOT(none))), "problem:plain", "the constraints are left out only if there are none", "src/types.rs display_with_problem")
                c.ob(me in set(subterms(A.simp(x))), "problem:set", f"the text is that of this set: {shown(x, 5)[:120]}", "src/types.rs display_with_problem")


LABELS = {"Timestamp": "timestamp", "Current iteration": "current_iteration", "Elapsed time": "elapsed_time", "Unchanged cycles": "unchanged_cycles", "Merit threshold": "merit_threshold",
          "Reference set size": "#reference_set", "Distance filter solutions": "#distance_filter_solutions", "Current seed": "current_seed", "Population size": "params.population_size",
          "Iterations": "params.iterations", "Wait cycle": "params.wait_cycle", "Threshold factor": "params.threshold_factor", "Distance factor": "params.distance_factor",
          "Local solver": "params.local_solver_type", "Seed": "params.seed", "Target objective": "target_objective.0", "Exclude out of bounds": "exclude_out_of_bounds",
          "Absolute tolerance": "abs_tol", "Relative tolerance": "rel_tol", "Solution set": "#solution_set.0.solutions"}


@rule("C34", ("all",))
def checkpoint_text(c):
    """the printed form of a checkpoint shows under each label the field it names"""
    p = [p for p in c.prog().bodies if p.endswith("types::OQNLPCheckpoint as std::fmt::Display>::fmt")]
    c.need(p, "Display", "Display of OQNLPCheckpoint")
    A = c.an(p[0], ("best_solution",))
    q = Q(A)
    P = Shown(A, q)
    me = arg(A, 1)
    where = "src/types.rs fmt of OQNLPCheckpoint"
    seen = {}
    for t, e, ss in P.items:
        for s in ss:
            for x in subterms(s.args[1]):
                n = nd(x)
                if n[0] == "call" and leafname(n[1]) == "new" and len(n[2]) == 2 and e.ret in set(subterms(n[2][1])) and len(nd(n[2][1])[4]) == 1:
                    b = literal(n[2][0])
                    m = re.match(rb"[\x00-\x1f ]*([A-Za-z][A-Za-z ]*):", b[1:]) if b else None
                    if m:
                        lab = m.group(1).decode().strip()
                        ln = call_of(t, "len")
                        src = ("#" + (path_of(A, ln[0], me) or "?")) if ln is not None else path_of(A, t, me)
                        if lab in LABELS:
                            seen[lab] = OR(seen.get(lab, 0), A.guard(s.node))
                            c.ob(src == LABELS[lab], f"label:{lab}", f"'{lab}' shows {LABELS[lab]}: {src}", where)
    fine = P.fine(1)
    for lab in LABELS:
        have = 1
        if lab == "Target objective":
            have = some(A, field(me, "target_objective"))
        if lab == "Solution set":
            have = some(A, field(me, "solution_set"))
        c.ob(not sat(AND(fine, have, NOT(seen.get(lab, 0)))), f"shown:{lab}", f"'{lab}' is shown", where)
