"""What observers show: counters, callbacks (C23), best values and timers (C24), totals of evaluations (C30)."""
from lib import *
from runlib import *

ST = {"Stage1State": ("src/observers/stage1.rs", {
          "set_reference_set_size": ("set", "reference_set_size"), "add_function_evaluations": ("add", "function_evaluations"),
          "add_trial_points": ("add", "trial_points_generated")},
          {"reference_set_size": 0, "function_evaluations": 0, "trial_points_generated": 0}),
      "Stage2State": ("src/observers/stage2.rs", {
          "set_iteration": ("set", "current_iteration"), "set_solution_set_size": ("set", "solution_set_size"), "set_threshold_value": ("set", "threshold_value"),
          "set_unchanged_cycles": ("set", "unchanged_cycles"), "add_function_evaluations": ("add", "function_evaluations")},
          {"solution_set_size": 0, "current_iteration": 0, "local_solver_calls": 0, "improved_local_calls": 0, "function_evaluations": 0, "unchanged_cycles": 0})}


class State:
    """one of the state structs: its fields by what its getters return"""

    def __init__(self, c, name):
        self.c, self.name = c, name
        self.where = ST[name][0]
        self.fields = next([f["name"] for f in c.prog().adts[p]["vars"][0]["fields"]] for p in c.prog().adts if p.endswith("::" + name))
        self.get = {}
        self.memo = {}

    def fn(self, m):
        if m not in self.memo:
            A = self.c.an(f"{self.name}::{m}", (), nopanic=True)
            self.memo[m] = (A, Q(A))
        return self.memo[m]

    def getter(self, m):
        """the field a getter returns, always"""
        if m not in self.get:
            A, q = self.fn(m)
            vs = {path1(A, v) for f, v, r in returns(A, q)}
            ok = len(vs) == 1 and None not in vs
            self.c.ob(ok, f"{self.name}:{m}", f"{self.name}::{m} returns one field of the state", self.where)
            self.get[m] = vs.pop() if ok else None
        return self.get[m]

    def after(self, m, f):
        A, q = self.fn(m)
        return [(AND(g, g2), x, r) for g, v, r in final(A, q, loc(1, f)) for g2, x in sums(A, q, v)]

    def effect(self, m, want, free=()):
        """the fields of want end as want[field]: [(guard, value)]; all others, except those in free, as they were"""
        A, q = self.fn(m)
        me = A.argterm(1)
        for f in self.fields:
            if f in free:
                continue
            for g, test, desc in want.get(f, [(1, same(A, field(me, f)), "unchanged")]):
                for g2, v, r in self.after(m, f):
                    if sat(AND(g, g2)):
                        self.c.ob(test(v), f"{self.name}:{m}:{desc}", f"{self.name}::{m}: {f} afterwards is {shown(v, 7)[:120]}, due: {desc}", self.where)


def sums(A, q, v):
    """the cases of a sum whose operands differ by case"""
    out = []
    for g, x in q.cases(v):
        n = nd(A.simp(x))
        if n[0] == "bin" and n[1] == "Add" and any(nd(A.simp(y))[0] == "phi" for y in n[2:4]):
            out += [(AND(g, g1, g2), binop("Add", a, b, "usize")) for g1, a in q.cases(n[2]) for g2, b in q.cases(n[3])]
        else:
            out.append((g, x))
    return out


def same(A, t):
    return lambda v: A.simp(v) == A.simp(t)


def same_some(A, t):
    def test(v):
        n = nd(A.simp(v))
        return n[0] == "agg" and n[2] == "Some" and A.simp(n[4][0]) == A.simp(t)
    return test


def plus(A, a, b):
    """a + b, in any of the forms that agree short of overflow"""
    def test(v):
        n = nd(A.simp(v))
        if n[0] == "bin" and n[1] == "Add":
            x = n[2:4]
        elif n[0] == "call" and leafname(n[1]) in ("saturating_add", "wrapping_add"):
            x = n[2]
        else:
            return False
        return sorted(map(A.simp, x)) == sorted(map(A.simp, (a, b)))
    return test


def path1(A, t):
    """the field of the receiver that t is"""
    t = A.simp(t)
    for _ in range(4):
        n = nd(t)
        if n[0] == "fld" and n[1] == A.argterm(1):
            return n[2]
        if n[0] == "call" and leafname(n[1]) in ("deref", "as_str", "as_ref", "as_deref", "borrow", "clone") and n[2]:
            t = A.simp(n[2][0])
        else:
            return None
    return None


@rule("C23", ("all", "nodefault"))
def states(c):
    """the state structs: every counter starts at zero and every update changes the one field its name says, by what it is given"""
    for name, (where, upd, init) in ST.items():
        S = State(c, name)
        for m, (kind, g) in upd.items():
            f = S.getter(g)
            A, q = S.fn(m)
            if f is None:
                continue
            me, x = A.argterm(1), A.argterm(2)
            S.effect(m, {f: [(1, same(A, x), "what is given") if kind == "set" else (1, plus(A, field(me, f), x), "what is given more")]})
        if name == "Stage1State":
            f = S.getter("current_substage")
            A, q = S.fn("enter_substage")
            if f:
                S.effect("enter_substage", {f: [(1, lambda v: A.argterm(2) in set(subterms(A.simp(v))), "the name given")]}, set(S.fields) - {S.getter(x) for x in ("reference_set_size", "best_objective", "best_point", "function_evaluations", "trial_points_generated", "current_substage")})
        if name == "Stage2State":
            A, q = S.fn("add_local_solver_call")
            a, b = S.getter("local_solver_calls"), S.getter("improved_local_calls")
            if a and b:
                me, imp = A.argterm(1), A.cond(A.argterm(2))
                inc = lambda f: plus(A, field(me, f), const(1, "usize"))
                S.effect("add_local_solver_call", {a: [(1, inc(a), "one more")], b: [(imp, inc(b), "one more"), (NOT(imp), same(A, field(me, b)), "unchanged")]})
        gets = [S.getter(g) for g in init]
        c.ob(len(set(gets)) == len(gets), f"{name}:distinct", f"{name}: the counters are different fields", where)
        A, q = S.fn("new")
        for g, z in init.items():
            vs = {A.simp(field(v, S.getter(g) or g)) for f, v, r in returns(A, q)}
            c.ob(len(vs) == 1 and nd(next(iter(vs)))[:2] == ("c", z), f"{name}:zero", f"{name}::new: {g} starts at {z}", where)
        fresh(c, S)


def fresh(c, S):
    """Default is new()"""
    A = c.an(f"{S.name} as std::default::Default>::default", (), nopanic=True) if c.fn(f"{S.name} as std::default::Default>::default", optional=True) is not None else None
    if A is None:
        return
    N, qn = S.fn("new")
    q = Q(A)
    x, y = {A.simp(v) for f, v, r in returns(A, q)}, {N.simp(v) for f, v, r in returns(N, qn)}
    c.ob(x == y, f"{S.name}:default", f"{S.name}::default is new()", S.where)


@rule("C24", ("all", "nodefault"))
def bests(c):
    """the state structs: best objective and point change together and only to a better value; timers hold what elapsed between start and end"""
    for name in ST:
        S = State(c, name)
        fb, fp = S.getter("best_objective"), S.getter("best_point")
        if fb and fp:
            A, q = S.fn("set_best_solution")
            me, o, p = A.argterm(1), A.argterm(2), A.argterm(3)
            old = field(me, fb)
            better = B.OR(nan(old), lt(o, old))
            S.effect("set_best_solution", {fb: [(better, same(A, o), "the better objective"), (NOT(better), same(A, old), "unchanged")],
                                           fp: [(better, same_some(A, p), "the better point"), (NOT(better), same(A, field(me, fp)), "unchanged")]})
            A, q = S.fn("new")
            for f, v, r in returns(A, q):
                x = A.simp(field(v, fb))
                c.ob("NAN" in str(nd(x)), f"{name}:unknown", f"{name}::new: no best objective is known", S.where)
                y = A.simp(field(v, fp))
                c.ob(nd(y)[0] == "agg" and nd(y)[2] == "None", f"{name}:nopoint", f"{name}::new: no best point is known", S.where)
        timer(c, S)
        if name == "Stage2State":
            f = S.getter("last_added_point")
            if f:
                A, q = S.fn("set_last_added_solution")
                S.effect("set_last_added_solution", {f: [(1, same_some(A, A.argterm(2)), "the point given")]})


def timer(c, S):
    A, q = S.fn("total_time")
    me = A.argterm(1)
    run = tot = None
    for f, v, r in returns(A, q):
        v = A.simp(v)
        p = path1(A, v)
        if p is not None:
            tot = p
        else:
            for x in subterms(v):
                m = nd(x)
                if m[0] == "call" and leafname(m[1]) == "elapsed":
                    y = nd(A.simp(m[2][0]))
                    if y[0] == "fld" and y[2] == "0" and nd(y[1])[0] == "fld" and nd(y[1])[2] == "#Some":
                        run = path1(A, nd(y[1])[1])
    ok = run is not None and tot is not None
    c.ob(ok, f"{S.name}:timer", f"{S.name}::total_time is the time since start while the stage runs, and the time kept when it ended", S.where)
    if not ok:
        return
    going = A.isvar(field(me, run), "Some", ["None", "Some"])

    def secs(A, t, of):
        """Some(seconds elapsed since the start kept in field of)"""
        n = nd(A.simp(t))
        if n[0] != "agg" or n[2] != "Some":
            return False
        x = nd(A.simp(n[4][0]))
        if x[0] != "call" or leafname(x[1]) != "as_secs_f64":
            return False
        y = nd(A.simp(x[2][0]))
        if y[0] == "call" and leafname(y[1]) == "elapsed":
            return A.simp(y[2][0]) == A.simp(payload(field(A.argterm(1), of)))
        return False
    for f, v, r in returns(A, q):
        if sat(AND(f, going)):
            c.ob(secs(A, v, run), f"{S.name}:running", f"{S.name}::total_time while running: {shown(v, 6)[:90]}", S.where)
        if sat(AND(f, NOT(going))):
            c.ob(A.simp(v) == A.simp(field(me, tot)), f"{S.name}:ended", f"{S.name}::total_time after the end: {shown(v, 6)[:90]}", S.where)
    # start: running from now
    S.effect("start", {}, (run, tot))
    A, q = S.fn("start")
    for f, v, r in S.after("start", run):
        n = nd(A.simp(v))
        c.ob(n[0] == "agg" and n[2] == "Some" and nd(A.simp(n[4][0]))[0] == "call" and leafname(nd(A.simp(n[4][0]))[1]) == "now", f"{S.name}:start",
             f"{S.name}::start: the clock starts now: {shown(v, 5)[:90]}", S.where)
    # end: stopped, with what elapsed
    S.effect("end", {}, (run, tot))
    A, q = S.fn("end")
    me = A.argterm(1)
    going = A.isvar(field(me, run), "Some", ["None", "Some"])
    for f, v, r in S.after("end", run):
        stopped = nd(A.simp(v))[0] == "agg" and nd(A.simp(v))[2] == "None" or (A.simp(v) == A.simp(field(me, run)) and not sat(AND(f, going)))
        c.ob(stopped, f"{S.name}:end", f"{S.name}::end: the clock is stopped: {shown(v, 5)[:90]}", S.where)
    for f, v, r in S.after("end", tot):
        if sat(AND(f, going)):
            c.ob(secs(A, v, run), f"{S.name}:total", f"{S.name}::end: the time since start is kept: {shown(v, 5)[:90]}", S.where)
        if sat(AND(f, NOT(going))):
            c.ob(A.simp(v) == A.simp(field(me, tot)), f"{S.name}:total", f"{S.name}::end: a stage that is not running keeps its time: {shown(v, 5)[:90]}", S.where)
    A, q = S.fn("new")
    for f, v, r in returns(A, q):
        for x in (run, tot):
            y = A.simp(field(v, x))
            c.ob(nd(y)[0] == "agg" and nd(y)[2] == "None", f"{S.name}:unstarted", f"{S.name}::new: no time is shown before the start", S.where)
    # nothing else touches the clock: every other method of the state leaves both fields alone
    for b in c.prog().bodies:
        m = b if isinstance(b, str) else b.path
        if f"{S.name}::" in m and "closure" not in m and leafname(m) not in ("new", "start", "end", "default") and "{impl" not in m:
            A = c.an(m, (), nopanic=True)
            if A.argterm is None or not any(w.loc[0] == loc(1)[0] for w in A.writes()):
                continue
            q = Q(A)
            for x in (run, tot):
                for f, v, r in final(A, q, loc(1, x)):
                    c.ob(A.simp(v) == A.simp(field(A.argterm(1), x)), f"{S.name}:clock", f"{leafname(m)} leaves the clock alone", S.where)


class Obs:
    """the observer's fields, by the methods that set or read them"""

    def __init__(self, c):
        self.c = c
        p = next(p for p in c.prog().adts if p.endswith("observers::Observer"))
        self.fields = [f["name"] for f in c.prog().adts[p]["vars"][0]["fields"]]
        self.where = "src/observers/mod.rs"
        self.stage1 = self.read("stage1_final")
        self.timing = self.read("is_timing_enabled")
        self.completed, self.started = self.written("mark_stage1_complete"), self.written("mark_stage2_started")
        self.mode = self.built("with_mode")
        self.freq = self.built("with_callback_frequency", 2)
        self.stage2 = self.built("with_stage2_tracking")
        self.callback = self.built("with_callback")

    def fn(self, m):
        A = self.c.an(f"observers::Observer::{m}", ("with_default_callback",) if m == "with_callback_frequency" else (), nopanic=True)
        return A, Q(A)

    def read(self, m):
        A, q = self.fn(m)
        vs = {path1(A, v) for f, v, r in returns(A, q)}
        return vs.pop() if len(vs) == 1 else None

    def written(self, m):
        """the one flag m sets to true, always"""
        A, q = self.fn(m)
        out = set()
        for f in self.fields:
            for g, v, r in final(A, q, loc(1, f)):
                if A.simp(v) != A.simp(field(A.argterm(1), f)):
                    out.add((f, nd(A.simp(v))[:2], g == A.guard(r)))
        x = out.pop() if len(out) == 1 else (None, None, None)
        self.c.ob(x[0] is not None and x[1][0] == "c" and int(x[1][1]) == 1 and x[2], f"observer:{m}", f"{m} sets one flag", self.where)
        return x[0]

    def changed(self, m):
        """{field: [(guard, value)]} a by-value method changes"""
        A, q = self.fn(m)
        out = {}
        for f in self.fields:
            for g, v, r in returns(A, q):
                for g2, x in q.cases(A.simp(field(v, f))):
                    x = A.simp(x)
                    if sat(AND(g, g2)) and x != A.simp(field(A.argterm(1), f)):
                        out.setdefault(f, []).append((AND(g, g2), x))
        return out

    def built(self, m, hint=None):
        ch = self.changed(m)
        if hint is not None:
            ch = {f: vs for f, vs in ch.items() if any(x == self.fn(m)[0].argterm(hint) for g, x in vs)}
        ok = len(ch) == 1
        self.c.ob(ok, f"observer:{m}:sets", f"{m} sets exactly one setting: {sorted(ch)}", self.where)
        return next(iter(ch)) if ok else None


@rule("C23", ("all", "nodefault"))
def gating(c):
    """the observer: which stages are observed, when the callback is due, what the callback can see, and what each builder method sets"""
    O = Obs(c)
    w = O.where
    if None in (O.stage1, O.timing, O.completed, O.started, O.mode, O.freq, O.stage2, O.callback):
        c.ob(False, "observer:fields", "the observer's settings are identified by its methods", w)
        return
    MODES = [v["name"] for p in c.prog().adts if p.endswith("ObserverMode") for v in c.prog().adts[p]["vars"]]

    def ret_true(m):
        A, q = O.fn(m)
        return A, q, OR(*[AND(f, A.cond(v)) for f, v, r in returns(A, q)])
    for k, only, st in ((1, "Stage1Only", O.stage1), (2, "Stage2Only", O.stage2)):
        A, q, f = ret_true(f"should_observe_stage{k}")
        me = A.argterm(1)
        md = field(me, O.mode)
        other = "Stage2Only" if k == 1 else "Stage1Only"
        m = {v: A.isvar(md, v, MODES) for v in MODES}
        excl = 1
        for i, x in enumerate(MODES):
            for y in MODES[:i]:
                excl = AND(excl, NOT(AND(m[x], m[y])))
        excl = AND(excl, OR(*m.values()))
        want = AND(NOT(m[other]), A.isvar(field(me, st), "Some", ["None", "Some"]))
        c.ob(not sat(AND(excl, OR(AND(f, NOT(want)), AND(NOT(f), want)))), f"observe{k}",
             f"should_observe_stage{k}: stage {k} is observed iff it is tracked and the mode is not {other}: {A.show_f(f)[:160]}", w)
    # when the callback is due
    A, q, f = ret_true("should_invoke_callback")
    me, it = A.argterm(1), A.argterm(2)
    fr = field(me, O.freq)
    zero = const(0, "usize")
    due = AND(A.isvar(field(me, O.callback), "Some", ["None", "Some"]), NOT(A.cond(binop("Eq", fr, zero, "usize"))), A.cond(binop("Eq", binop("Rem", it, fr, "usize"), zero, "usize")))
    c.ob(equiv(f, due) or same_on_grid(A, f, due, it, fr), "due", f"the callback is due iff there is one, its frequency is not 0 and the iteration is a multiple of it: {A.show_f(f)[:160]}", w)
    # invoking it calls it once
    A, q = O.fn("invoke_callback")
    me = A.argterm(1)
    has = A.isvar(field(me, O.callback), "Some", ["None", "Some"])
    cb = A.simp(payload(field(me, O.callback)))
    calls = [e for e in A.events() if leafname(e.path) in ("call", "call_mut", "call_once", "call_indirect") and cb in set(subterms(A.simp(e.args[0])))]
    c.ob(len(calls) == 1 and equiv(A.guard(calls[0].node), has) and not A.flow.inl[calls[0].node], "invoke", "invoke_callback calls the callback, if there is one, exactly once", w)
    # what it can see
    for k, st, flag, when in ((1, O.stage1, O.completed, False), (2, O.stage2, O.started, True)):
        A, q = O.fn(f"stage{k}")
        me = A.argterm(1)
        on = A.cond(field(me, flag))
        on = on if when else NOT(on)
        for g, v, r in returns(A, q):
            n = nd(A.simp(v))
            shows = A.simp(v) == A.simp(field(me, st))
            none = n[0] == "agg" and n[2] == "None"
            some_ = n[0] == "agg" and n[2] == "Some" and A.simp(n[4][0]) == A.simp(payload(field(me, st)))
            if sat(AND(g, on)):
                c.ob(shows or (some_ and not sat(AND(g, on, NOT(A.isvar(field(me, st), "Some", ["None", "Some"]))))) or
                     (none and not sat(AND(g, on, A.isvar(field(me, st), "Some", ["None", "Some"])))),
                     f"shown{k}", f"stage{k}() shows the stage's state {'once started' if when else 'until completed'}: {shown(v, 4)[:90]}", w)
            if sat(AND(g, NOT(on))):
                c.ob(none, f"hidden{k}", f"stage{k}() shows nothing {'before the start' if when else 'after completion'}: {shown(v, 4)[:90]}", w)
        A, q = O.fn(f"stage{k}_mut")
        got = final_mut(A, q, st)
        c.ob(got, f"mut{k}", f"stage{k}_mut gives the state of stage {k}", w)
    watch(c, O)
    # builder methods
    for m, f, want in (("with_stage1_tracking", O.stage1, "Stage1State"), ("with_stage2_tracking", O.stage2, "Stage2State")):
        ch = O.changed(m)
        A, q = O.fn(m)
        N, qn = State(c, want).fn("new")
        new = {N.simp(v) for g, v, r in returns(N, qn)}
        ok = set(ch) == {f} and all(nd(x)[0] == "agg" and nd(x)[2] == "Some" and A.simp(nd(x)[4][0]) in new for g, x in ch[f])
        c.ob(ok, f"builder:{m}", f"{m} tracks the stage from a new state and changes nothing else", w)
    A, q = O.fn("with_mode")
    c.ob({f: [x for g, x in vs] for f, vs in O.changed("with_mode").items()} == {O.mode: [A.argterm(2)]}, "builder:with_mode", "with_mode sets the mode given", w)
    ch = O.changed("with_timing")
    c.ob(set(ch) == {O.timing} and all(nd(x)[:2] in (("c", 1), ("c", True)) for g, x in ch[O.timing]), "builder:with_timing", "with_timing enables timing", w)
    A, q = O.fn("with_callback")
    c.ob(all(holds(A, x, A.argterm(2)) for g, x in O.changed("with_callback").get(O.callback, [])), "builder:with_callback", "with_callback keeps the callback given", w)
    frequency(c, O)
    A, q = O.fn("new")
    for g, v, r in returns(A, q):
        for f in (O.stage1, O.stage2, O.callback):
            x = nd(A.simp(field(v, f)))
            c.ob(x[0] == "agg" and x[2] == "None", f"new:{'callback' if f == O.callback else 'stage'}", "a new observer tracks nothing and has no callback", w)
        for f, z in ((O.freq, 1), (O.timing, 0), (O.completed, 0), (O.started, 0)):
            x = nd(A.simp(field(v, f)))
            c.ob(x[0] == "c" and int(x[1]) == z, "new:settings", f"a new observer's {f} is {z}", w)
        x = nd(A.simp(field(v, O.mode)))
        c.ob(x[0] == "agg" and x[2] == "Both", "new:mode", "a new observer observes both stages", w)


def watch(c, O):
    """the observer's clock: started now, iff timing is enabled; what elapsed is shown iff it was started"""
    A, q = O.fn("start_timer")
    me = A.argterm(1)
    on = A.cond(field(me, O.timing))
    clock = {f for f in O.fields for g, v, r in final(A, q, loc(1, f)) if A.simp(v) != A.simp(field(me, f))}
    c.ob(len(clock) == 1, "clock:field", f"start_timer sets the start time alone: {sorted(clock)}", O.where)
    if len(clock) != 1:
        return
    k = clock.pop()
    for g, v, r in final(A, q, loc(1, k)):
        n = nd(A.simp(v))
        now = n[0] == "agg" and n[2] == "Some" and nd(A.simp(n[4][0]))[0] == "call" and leafname(nd(A.simp(n[4][0]))[1]) == "now"
        if sat(AND(g, on)):
            c.ob(now, "clock:start", f"start_timer starts the clock now: {shown(v, 5)[:90]}", O.where)
        if sat(AND(g, NOT(on))):
            c.ob(A.simp(v) == A.simp(field(me, k)), "clock:off", f"start_timer does nothing without timing: {shown(v, 5)[:90]}", O.where)
    A, q = O.fn("elapsed_time")
    t = field(A.argterm(1), k)
    going = A.isvar(t, "Some", ["None", "Some"])
    for g, v, r in returns(A, q):
        n = nd(A.simp(v))
        if sat(AND(g, going)):
            x = nd(A.simp(n[4][0])) if n[0] == "agg" and n[2] == "Some" else ("",)
            y = nd(A.simp(x[2][0])) if x[0] == "call" and leafname(x[1]) == "as_secs_f64" else ("",)
            ok = y[0] == "call" and leafname(y[1]) == "elapsed" and A.simp(y[2][0]) == A.simp(payload(t))
            c.ob(ok, "clock:elapsed", f"elapsed_time is the time since the start, in seconds: {shown(v, 6)[:90]}", O.where)
        if sat(AND(g, NOT(going))):
            c.ob(n[0] == "agg" and n[2] == "None", "clock:none", f"no time is shown before the start: {shown(v, 4)[:90]}", O.where)
    A, q = O.fn("new")
    for g, v, r in returns(A, q):
        n = nd(A.simp(field(v, k)))
        c.ob(n[0] == "agg" and n[2] == "None", "clock:new", "a new observer's clock is not running", O.where)


def same_on_grid(A, f, g, *xs):
    """do f and g, over the integers xs, agree on every residue and around every constant they mention?"""
    import grid
    import itertools
    try:
        cs = grid.constants([f, g])
        dom = sorted(set(range(13)) | {y for x in cs if isinstance(x, int) and x >= 0 for y in (x, x + 1, max(x - 1, 0))})
        rest = [B.vars[v] for v in B.support(OR(f, g)) | B.support(AND(f, g)) if B.vars[v][0] not in ("lt", "eq", "nan")]
        for vals in itertools.product(dom, repeat=len(xs)):
            env = dict(zip(xs, vals))
            for bits in itertools.product((False, True), repeat=len(rest)):
                oth = dict(zip(rest, bits))
                if grid.holds(f, env.get, oth.get) != grid.holds(g, env.get, oth.get):
                    return False
        return True
    except grid.Opaque:
        return False


def holds(A, t, x):
    """Some(Arc of x)"""
    n = nd(A.simp(t))
    return n[0] == "agg" and n[2] == "Some" and A.simp(x) in set(subterms(A.simp(n[4][0])))


def frequency(c, O):
    """with_callback_frequency sets the frequency; with no callback set it adds the default one, otherwise keeps it"""
    A, q = O.fn("with_callback_frequency")
    me, fr = A.argterm(1), A.argterm(2)
    has = A.isvar(field(me, O.callback), "Some", ["None", "Some"])
    k = 0
    for g, v, r in returns(A, q):
        for f in O.fields:
            for g2, x in q.cases(A.simp(field(v, f))):
                G, x = AND(g, g2), A.simp(x)
                if sat(AND(G, has)):
                    c.ob(x == (fr if f == O.freq else A.simp(field(me, f))), "frequency:kept", f"with_callback_frequency: {f} is {shown(x, 4)[:80]} when there is a callback", O.where)
                if sat(AND(G, NOT(has))) and f in (O.freq, O.callback):
                    d = [y for y in subterms(x) if nd(y)[0] == "call" and leafname(nd(y)[1]) == "with_default_callback"]
                    ok = any(A.simp(field(nd(y)[2][0], O.freq)) == fr for y in d) if f == O.freq and d else x == fr if f == O.freq else bool(d)
                    k += 1
                    c.ob(ok, "frequency:default", f"with_callback_frequency: without a callback the default one is added, at the frequency given: {f} is {shown(x, 5)[:120]}", O.where)
    c.floor(k, 2, "frequency:returns", "settings with the default callback")


def final_mut(A, q, st):
    ok = False
    for g, v, r in returns(A, q):
        n = nd(A.simp(v))
        if n[0] == "agg" and n[2] == "Some":
            x = str(nd(n[4][0]))
            ok = (f"'{st}'" in x and "#Some" in x) or f"*arg1.{st}.#Some.0" in shown(n[4][0], 6)
            if not ok:
                return False
        elif not (n[0] == "agg" and n[2] == "None"):
            return shown(v, 6) in (f"&mut *arg1.{st}",)
    return ok


STAGES = ("Stage1State", "Stage2State", "invoke_callback", "start_timer", "mark_stage")
DRIVER = STAGES + ("process_local_solution", "target_objective_reached", "CheckpointManager", "LocalSolver", "ScatterSearch")
RUNW = "src/oqnlp.rs run"


class Driver:
    """OQNLP::run with the observer's updates and the processing of a local solution as events"""

    def __init__(self, c, opq=DRIVER):
        self.c = c
        self.A = A = c.an("OQNLP::run", opq, keep=opq, nopanic=True)
        self.q = q = Q(A)
        self.O = Obs(c)
        self.fl = A.flow
        ob = field(A.argterm(1), "observer")
        is_ = lambda t: A.isvar(t, "Some", ["None", "Some"])
        modes = [v["name"] for p in c.prog().adts if p.endswith("ObserverMode") for v in c.prog().adts[p]["vars"]]
        md = field(payload(ob), self.O.mode)
        m = {v: A.isvar(md, v, modes) for v in modes}
        self.excl = OR(*m.values())
        for i, x in enumerate(modes):
            for y in modes[:i]:
                self.excl = AND(self.excl, NOT(AND(m[x], m[y])))
        self.has = is_(ob)
        self.o2 = AND(self.has, NOT(m["Stage1Only"]), is_(field(payload(ob), self.O.stage2)))
        self.o1 = AND(self.has, NOT(m["Stage2Only"]), is_(field(payload(ob), self.O.stage1)))

    def inner(self, n):
        return self.fl.inl[n][0] if self.fl.inl[n] else None

    def state(self, k, *names):
        """updates of the state of stage k"""
        return [e for e in self.q.calls(*names) if f"Stage{k}State" in e.path]

    def rel(self, h, n):
        return self.A.rel(h, n) if h is not None else self.A.guard(n)

    def done(self, e):
        """the search result e processes was taken up"""
        return self.A.isvar(e.ret, "Ok", ["Ok", "Err"])

    def sat(self, h, f):
        """can f, a condition within a round of h, hold in a round that is reached?"""
        f = AND(f, self.excl)
        return sat(f) and (h is None or sat(AND(f, self.A.guard(h))))

    def same(self, f, g, h=None):
        return not self.sat(h, AND(f, NOT(g))) and not self.sat(h, AND(NOT(f), g))

    def once(self, h, es):
        """never two of es in one round of h"""
        return all(not self.sat(h, AND(self.rel(h, x.node), self.rel(h, y.node))) for i, x in enumerate(es) for y in es[:i]) and all(self.inner(e.node) == h for e in es)

    def of_one_search(self, p, v, F, d=0):
        """solution p and count v are the two halves of the result of one counted search"""
        A, q = self.A, self.q
        ok = False
        for g, y in q.cases(p):
            for g2, z in q.cases(uncast(A, v)):
                G = AND(F, g, g2, self.excl)
                z = uncast(A, z)
                if not sat(G):
                    continue
                ny, nz = nd(y), nd(z)
                if ny[0] == "fld" and nz[0] == "fld" and ny[1] == nz[1]:
                    x = A.simp(ny[1])
                    r = nd(nd(x)[1]) if nd(x)[0] == "fld" and nd(x)[2] == "0" else ("",)
                    a = call_of(r[1], "solve_with_tracking") if r[0] == "fld" and r[2] == "#Ok" else None
                    if ny[2] == "0" and nz[2] == "1" and a is not None:
                        t = nd(A.simp(a[2]))
                        if t[:2] == ("c", 1) or t[:2] == ("c", True):
                            ok = True
                            continue
                ay, cy, fy = q.access(y)
                az, cz, fz = q.access(z)
                if ay is not None and ay == az and d < 6:
                    vs = q.elem_of(ay)
                    if vs and not (len(vs) == 1 and vs[0][0] == fy):
                        good = True
                        for e, pu in vs:
                            a, b = e, e
                            for k in cy:
                                a = project(a, k)
                            for k in cz:
                                b = project(b, k)
                            if a == UNDEF and b == UNDEF:
                                continue
                            pg = AND(q.pushguard(pu), self.o2, self.excl)
                            if not sat(pg):
                                continue
                            good = good and self.of_one_search(A.simp(a), A.simp(b), pg, d + 1)
                        if good:
                            ok = True
                            continue
                return False
        return ok


def call_of(t, name):
    n = nd(t)
    return n[2] if n[0] == "call" and leafname(n[1]) == name else None


def uncast(A, t):
    t = A.simp(t)
    n = nd(t)
    while n[0] == "cast":
        t = A.simp(next(x for x in n[1:] if type(x) is int))
        n = nd(t)
    return t


@rule("C30", ("all", "nodefault"))
def totals(c):
    """OQNLP::run, Stage 2: for every local search taken up while stage 2 is observed, the observer's total grows once by the evaluations of that very search; for every
    objective evaluation of the driver itself it grows by one"""
    D = Driver(c)
    A, q = D.A, D.q
    P = [e for e in q.calls("process_local_solution") if D.inner(e.node) is not None]
    c.floor(len(P), 1, "taken-up", "places where Stage 2 takes up the result of a local search")
    adds = D.state(2, "add_function_evaluations")
    used = set()
    for h in sorted({D.inner(e.node) for e in P}):
        ps = [e for e in P if D.inner(e.node) == h]
        want = AND(OR(*[AND(A.rel(h, e.node), D.done(e)) for e in ps]), D.o2)
        mine = [e for e in adds if D.inner(e.node) == h and not D.sat(h, AND(A.rel(h, e.node), NOT(want)))]
        got = OR(*[A.rel(h, e.node) for e in mine])
        where = f"{RUNW} {ps[0].span}"
        c.ob(D.same(got, want, h), "searches", "the evaluations of every local search taken up while observed are added", where)
        c.ob(D.once(h, mine), "searches:once", "the evaluations of a local search are added once", where)
        for e in mine:
            used.add(e.node)
            for p in ps:
                F = AND(A.rel(h, e.node), A.rel(h, p.node), D.o2)
                if sat(AND(F, D.excl)):
                    c.ob(D.of_one_search(p.args[1], e.args[1], F), "searches:whose", f"the evaluations added are those of the search taken up: {shown(A.simp(e.args[1]), 6)[:120]}",
                         f"{RUNW} {e.span}")
    rest = [e for e in adds if e.node not in used]
    driver_evals(c, D, rest)


def driver_evals(c, D, rest):
    """evaluations of trial points by the driver in Stage 2"""
    A, q = D.A, D.q
    evals = [e for e in q.calls("objective") if "Problem" in e.path and D.inner(e.node) is not None]
    if c.cfg == "all":
        c.floor(len(evals), 1, "driver-evals", "objective evaluations of the Stage-2 driver")
    left = list(rest)
    for h in sorted({D.inner(e.node) for e in evals}):
        es = [e for e in evals if D.inner(e.node) == h]
        where = f"{RUNW} {es[0].span}"
        okd = OR(*[AND(A.rel(h, e.node), D.done(e)) for e in es])
        ones = [e for e in left if D.inner(e.node) == h]
        if ones:
            for e in ones:
                left.remove(e)
                x = nd(A.simp(e.args[1]))
                c.ob(x[0] == "c" and x[1] == 1, "trials:one", f"an evaluation counts one: {shown(A.simp(e.args[1]), 5)}", f"{RUNW} {e.span}")
            got = OR(*[A.rel(h, e.node) for e in ones])
            c.ob(D.same(got, AND(okd, D.o2), h), "trials", "every evaluation of a trial point while observed is counted", where)
            c.ob(D.once(h, ones), "trials:once", "an evaluation of a trial point is counted once", where)
            continue
        batch(c, D, h, es, okd, left, where)
    for e in left:
        c.ob(False, "unknown", "every addition to the total is for evaluations made", f"{RUNW} {e.span}")


def batch(c, D, h, es, okd, left, where):
    """evaluations made together and counted by the number of results they left"""
    A, q = D.A, D.q
    found = None
    for e in left:
        n = nd(A.simp(e.args[1]))
        if n[0] == "call" and leafname(n[1]) == "len":
            l = nd(A.simp(n[2][0]))
            if l[0] == "phi" and l[2] == h or A.simp(n[2][0]) in {A.simp(nd(y)[1]) for x in es for y in [walked(A, x.args[1])] if nd(y)[0] == "elem"}:
                found = (e, A.simp(n[2][0]))
    c.ob(found is not None, "batch", "the evaluations of a batch are counted by their results", where)
    if found is None:
        return
    e, v = found
    left.remove(e)
    per = 0
    bad = []
    if nd(v)[0] != "phi" or nd(v)[2] != h:
        # the list walked: one round per element
        per = OR(*[A.region(h)[1].get((p, h), 0) for p in A.flow.pred[h] if (p, h) in D.fl.back])
    else:
        for g, x in D_back(A, q, h, v):
            n = nd(x)
            if n[0] == "push" and A.simp(n[1]) == v:
                per = OR(per, g)
            elif x != v:
                bad.append(x)
        # it starts empty
        st = [A.simp(t) for p, t in q.ops(v).items() if (p, h) not in D.fl.back]
        c.ob(not bad, "batch:list", "the list of results only grows by one result at a time", where)
        c.ob(all(empty(x) for x in st) and st, "batch:empty", "the list of results starts empty for every batch", where)
    # while the list is counted, one result per evaluation
    G = AND(A.guard(e.node), D.excl)
    F = AND(fixed_part(A, h, G), D.o2, D.excl)
    c.ob(sat(AND(F, per)) and not sat(AND(F, okd, NOT(per))) and not sat(AND(F, per, NOT(okd))), "batch:each", "every evaluation of the batch leaves one result", where)
    c.ob(not sat(AND(G, NOT(D.o2))), "batch:observed", "only while observed", where)
    # counted in every round of the surrounding loop that makes the evaluations, if observed
    H = D.inner(e.node)
    if H is not None:
        rest = AND(A.rel(H, h), fixed_part(A, h, okd), D.o2, D.excl, NOT(A.rel(H, e.node)))
        for a in atoms(rest):
            if failed(D, es, a):
                rest = AND(rest, NOT(B.var(a)))
        c.ob(not D.sat(H, rest), "batch:counted", f"a batch that was evaluated is counted: {A.show_f(rest)[:1200]}", where)
    c.ob(D.inner(e.node) != h, "batch:after", "after its evaluations", where)


def fixed_part(A, h, f):
    """what f says about things that do not change within loop h"""
    inside = A.flow.loops[h]
    steps = {nd(a[1])[1:3] for n in inside for a in atoms(A.rel(h, n)) if a[0] == "is" and nd(a[1])[0] == "next"}
    steps -= {nd(a[1])[1:3] for a in atoms(A.guard(h)) if a[0] == "is" and nd(a[1])[0] == "next"}

    def varies(y):
        y = nd(y)
        return y[0] == "phi" and y[1] == A.uid and y[2] in inside or y[0] in ("elem", "idx", "next") and y[1:3] in steps
    for v in list(B.support(f)):
        a = B.vars[v]
        if a[0] != "exists" and any(varies(y) for x in a[1:] if type(x) is int for y in subterms(x)):
            f = B.OR(B.restrict(f, v, 0), B.restrict(f, v, 1))
    return f


def failed(D, es, a):
    """a says that one of the evaluations es failed"""
    if a[0] != "exists":
        return False
    return sat(a[2]) and any(not sat(AND(a[2], D.done(e))) for e in es)


def walked(A, t):
    t = A.simp(t)
    while nd(t)[0] == "fld":
        t = A.simp(nd(t)[1])
    return t


def D_back(A, q, h, v):
    out = []
    for p in A.flow.pred[h]:
        if (p, h) in A.flow.back:
            f = A.region(h)[1].get((p, h), 0)
            for g, x in q.cases(q.ops(v).get(p, UNDEF)):
                if AND(f, g) != 0 and x != UNDEF:
                    out.append((AND(f, g), x))
    return out


def empty(t):
    n = nd(t)
    return n[0] == "agg" and n[1] in ("vec", "array") and not n[4] or n[0] == "call" and leafname(n[1]) in ("new", "with_capacity", "default") and "Vec" in n[1] + "Vec"


SCW = "src/scatter_search.rs run"


class Stage1:
    """ScatterSearch::run with the observer's updates as events"""

    def __init__(self, c):
        from seqs import Seqs
        self.c = c
        self.A = A = c.an("ScatterSearch::run", STAGES, keep=STAGES, nopanic=True)
        self.q = q = Q(A)
        self.S = Seqs(A, q)
        self.O = O = Obs(c)
        ob = field(A.argterm(1), "observer")
        modes = [v["name"] for p in c.prog().adts if p.endswith("ObserverMode") for v in c.prog().adts[p]["vars"]]
        m = {v: A.isvar(field(payload(ob), O.mode), v, modes) for v in modes}
        self.excl = OR(*m.values())
        for i, x in enumerate(modes):
            for y in modes[:i]:
                self.excl = AND(self.excl, NOT(AND(m[x], m[y])))
        is_ = lambda t: A.isvar(t, "Some", ["None", "Some"])
        self.o1 = AND(is_(ob), NOT(m["Stage2Only"]), is_(field(payload(ob), O.stage1)))
        self.evals = [e for e in q.calls("objective") if "Problem" in e.path]

    def inner(self, n):
        return self.A.flow.inl[n][0] if self.A.flow.inl[n] else None

    def same(self, f, g):
        return not sat(AND(self.excl, OR(AND(f, NOT(g)), AND(NOT(f), g))))

    def bases(self, t, G):
        """lists that t has, under G, the length of; None if not known"""
        out = set()
        for g, ops, b in self.S.walk(t):
            if not sat(AND(G, g, self.excl)):
                continue
            for o in ops:
                if o[0] == "zip":
                    if self.bases(o[1], AND(G, g)) != {b} and not self.zipped(o[1], b, AND(G, g)):
                        return None
                elif o[0] not in ("map", "permute", "rev"):
                    return None
            out.add(b)
        return out

    def zipped(self, mark, b, G):
        """the list walked together with another (at loop mark) is made of one item per element of b"""
        for x in {mark} if isinstance(mark, int) else ():
            try:
                if self.bases(x, G) == {b}:
                    return True
            except Exception:
                pass
        return False


@rule("C30", ("all", "nodefault"))
def stage1_totals(c):
    """ScatterSearch::run: while stage 1 is observed, its total grows by the number of objective evaluations made: the whole first reference set, and every trial point
    evaluated"""
    D = Stage1(c)
    A, q = D.A, D.q
    adds = list(q.calls("add_function_evaluations"))
    c.floor(len(D.evals), 2, "stage1:evals", "objective evaluations of Stage 1")
    groups = {}
    for e in D.evals:
        h = D.inner(e.node)
        c.ob(h is not None, "stage1:loop", "evaluations are made over a list", f"{SCW} {e.span}")
        groups.setdefault(h, []).append(e)
    left = {e.node: e for e in adds}
    perctr, whole = {}, []
    for h, es in groups.items():
        made = OR(*[A.rel(h, e.node) for e in es])
        incs = [e for e in q.calls("fetch_add") if D.inner(e.node) == h]
        if not incs:
            whole.append((h, es, made))
            continue
        where = f"{SCW} {es[0].span}"
        c.ob(all(nd(A.simp(e.args[1]))[:2] == ("c", 1) for e in incs) and len({A.simp(e.args[0]) for e in incs}) == 1, "stage1:inc", "the counter grows by one", where)
        f = OR(*[A.rel(h, e.node) for e in incs])
        c.ob(equiv(f, made) and all(not sat(AND(A.rel(h, x.node), A.rel(h, y.node))) for i, x in enumerate(incs) for y in incs[:i]), "stage1:each", "each evaluation of a trial point is counted once", where)
        perctr.setdefault(A.simp(incs[0].args[0]), []).append(h)
    for ctr, hs in perctr.items():
        mine = [e for e in left.values() if call_of(uncast(A, e.args[1]), "into_inner") is not None or call_of(uncast(A, e.args[1]), "load") is not None]
        mine = [e for e in mine if A.simp(nd(uncast(A, e.args[1]))[2][0]) == ctr]
        where = f"{SCW} {groups[hs[0]][0].span}"
        z = call_of(ctr, "new")
        c.ob(z is not None and nd(A.simp(z[0]))[:2] == ("c", 0) or call_of(ctr, "default") is not None, "stage1:zero", "the counter starts at zero", where)
        reached(c, D, "stage1:counted", mine, OR(*[A.guard(h) for h in hs]), hs, "the trial evaluations counted are added to the total", where)
        for e in mine:
            left.pop(e.node)
    # whole lists
    for e in list(left.values()):
        n = nd(uncast(A, e.args[1]))
        bs = D.bases(A.simp(n[2][0]), A.guard(e.node)) if n[0] == "call" and leafname(n[1]) == "len" else None
        where = f"{SCW} {e.span}"
        c.ob(bs is not None and bool(bs), "stage1:whole", f"what is added is the number of points evaluated: {shown(A.simp(e.args[1]), 6)[:120]}", where)
        if not bs:
            continue
        left.pop(e.node)
        hs = []
        for h, es, made in whole:
            dom = {A.simp(nd(A.simp(x.args[1]))[1]) for x in es if nd(A.simp(x.args[1]))[0] == "elem"}
            every = D.S.strip(h, made) == 1
            ds = set()
            for d in dom:
                ds |= {A.simp(b) for g, b in q.cases(d) if sat(AND(A.guard(e.node), A.guard(h), g, D.excl))}
            if len(dom) == 1 and every and ds and ds <= bs:
                hs.append(h)
        c.ob(bool(hs), "stage1:evaluated", "every point of that list was evaluated once", where)
        whole = [x for x in whole if x[0] not in hs]
        if hs:
            reached(c, D, "stage1:added", [e], OR(*[A.guard(h) for h in hs]), hs, "the evaluations of the first reference set are added to the total", where)
            for i, x in enumerate(hs):
                for y in hs[:i]:
                    c.ob(not sat(AND(A.guard(x), A.guard(y))), "stage1:onelist", "the list is evaluated once", where)
    for h, es, made in whole:
        c.ob(False, "stage1:uncounted", "evaluations are counted", f"{SCW} {es[0].span}")
    for e in left.values():
        c.ob(False, "stage1:unknown", "every addition to the total is for evaluations made", f"{SCW} {e.span}")


def reached(c, D, key, adds, G, hs, what, where):
    """the additions are made once, exactly while observed, whenever the evaluations ended well"""
    A = D.A
    got = OR(*[A.guard(e.node) for e in adds])
    ok = bool(adds) and all(D.inner(e.node) is None for e in adds) and all(not sat(AND(A.guard(x.node), A.guard(y.node))) for i, x in enumerate(adds) for y in adds[:i])
    c.ob(ok, key + ":once", what + ", once", where)
    c.ob(not sat(AND(got, D.excl, NOT(D.o1))), key + ":observed", what + " only while observed", where)
    def one(t):
        """some element of a list is the same whichever walk over it names it"""
        return A.simp(rebuild(D.q.opened(t), lambda x: mk(nd(x)[0], nd(x)[1], "one") if nd(x)[0] in ("elem", "idx") else None))
    miss = AND(G, D.o1, D.excl, NOT(got))
    for a in atoms(miss):
        if a[0] == "exists" and any(not sat(AND(mapf(a[2], one), A.isvar(one(e.ret), "Ok", ["Ok", "Err"]))) for e in D.evals):
            miss = AND(miss, NOT(B.var(a)))
    c.ob(not sat(miss), key, what + (": not if " + A.show_f(miss)[:300] if sat(miss) else ""), where)


@rule("C30", ("all", "nodefault"))
def stage1_search(c):
    """OQNLP::run, Stage 1: the local search is counted iff stage 1 is observed, and its own evaluations are added to the total once"""
    D = Driver(c)
    A, q = D.A, D.q
    adds = D.state(1, "add_function_evaluations")
    S = [e for e in q.calls("solve", "solve_with_tracking") if D.inner(e.node) is None]
    c.floor(len(S), 1, "search1", "Stage-1 local searches")
    done = OR(*[AND(A.guard(e.node), D.done(e)) for e in S])
    got = OR(*[A.guard(e.node) for e in adds])
    where = f"{RUNW} {S[0].span}" if S else RUNW
    c.ob(bool(adds) and D.once(None, adds), "search1:once", "the evaluations of the first local search are added once", where)
    c.ob(D.same(got, AND(done, D.o1)), "search1:added", "they are added iff the search succeeded and stage 1 is observed", where)
    P = [e for e in q.calls("process_local_solution") if D.inner(e.node) is None]
    for e in adds:
        for p in P:
            F = AND(A.guard(e.node), A.guard(p.node))
            if sat(AND(F, D.excl)):
                c.ob(D.of_one_search(p.args[1], e.args[1], F), "search1:whose", f"the evaluations added are those of the search taken up: {shown(A.simp(e.args[1]), 6)[:120]}", f"{RUNW} {e.span}")


UPD = ("set_reference_set_size", "set_best_objective", "set_best_solution", "add_function_evaluations", "add_trial_points", "enter_substage", "start", "end", "set_iteration",
       "set_solution_set_size", "set_threshold_value", "add_local_solver_call", "set_unchanged_cycles", "set_last_added_solution")


@rule("C23", ("all", "nodefault"))
def observed(c):
    """every update of a stage's state is made only while that stage is observed"""
    n = 0
    D, E = Driver(c), Stage1(c)
    P = c.an("OQNLP::process_local_solution", STAGES, keep=STAGES, nopanic=True)
    for A, q, k, on, excl, where in ((D.A, D.q, 1, D.o1, D.excl, "src/oqnlp.rs"), (D.A, D.q, 2, D.o2, D.excl, "src/oqnlp.rs"), (E.A, E.q, 1, E.o1, E.excl, "src/scatter_search.rs"),
                                     (P, Q(P), 2, D.o2, D.excl, "src/oqnlp.rs")):
        for e in q.calls(*UPD):
            if f"Stage{k}State" not in e.path:
                continue
            n += 1
            h = A.flow.inl[e.node][0] if A.flow.inl[e.node] else None
            f = A.rel(h, e.node) if h is not None else A.guard(e.node)
            if not sat(AND(f, excl, NOT(on))) or h is None:
                ok = not sat(AND(f, excl, NOT(on)))
            else:
                ok = not sat(AND(f, A.guard(h), excl, NOT(on)))
            c.ob(ok, f"observed{k}:{leafname(e.path)}", f"{leafname(e.path)}: only while stage {k} is observed", f"{where} {e.span}")
    c.floor(n, 10, "updates", "updates of stage states")


@rule("C23", ("all", "nodefault"))
def searches(c):
    """OQNLP::run: the local solver calls shown grow by one for every Stage-2 search taken up while observed, and count as improving exactly if they added a solution; the
    callback is invoked once in every iteration it is due, with that iteration shown"""
    D = Driver(c)
    A, q = D.A, D.q
    P = [e for e in q.calls("process_local_solution") if D.inner(e.node) is not None]
    adds = D.state(2, "add_local_solver_call")
    c.floor(len(P), 1, "taken-up", "places where Stage 2 takes up the result of a local search")
    used = set()
    for h in sorted({D.inner(e.node) for e in P}):
        ps = [e for e in P if D.inner(e.node) == h]
        want = AND(OR(*[AND(A.rel(h, e.node), D.done(e)) for e in ps]), D.o2)
        mine = [e for e in adds if D.inner(e.node) == h]
        where = f"{RUNW} {ps[0].span}"
        c.ob(D.same(OR(*[A.rel(h, e.node) for e in mine]), want, h), "calls", "every local search taken up while observed is counted, and nothing else", where)
        c.ob(D.once(h, mine), "calls:once", "a local search is counted once", where)
        for e in mine:
            used.add(e.node)
            for p in ps:
                F = AND(A.rel(h, e.node), A.rel(h, p.node), D.excl)
                if D.sat(h, F):
                    for g, v in q.cases(e.args[1]):
                        if not sat(AND(F, g)):
                            continue
                        ok = v == A.simp(payload(p.ret, "Ok")) or same_truth(D, A, F, g, v, A.simp(payload(p.ret, "Ok")))
                        c.ob(ok, "calls:improved", f"a search counts as improving iff it added a solution: {shown(v, 5)[:100]}", f"{RUNW} {e.span}")
    for e in adds:
        c.ob(e.node in used, "calls:other", "only local searches are counted", f"{RUNW} {e.span}")
    callbacks(c, D)
    in_force(c, D)


def in_force(c, D):
    """the threshold and the wait counter shown are those of the moment they are shown"""
    from r_gate import counters
    A, q = D.A, D.q
    T = loc(1, "merit_filter", "threshold")
    for e in D.state(2, "set_threshold_value"):
        cur = A.simp(A.read(A.sin[e.node], T))
        c.ob(A.simp(e.args[1]) == cur, "threshold", f"the threshold shown is the one in force: {shown(A.simp(e.args[1]), 5)[:110]}", f"{RUNW} {e.span}")
    ls = {l for h in A.flow.loops for t, l, w in counters(A, h)}
    es = D.state(2, "set_unchanged_cycles")
    c.floor(len(ls) if es else 1, 1, "counter", "wait counters")
    for e in es:
        v = A.simp(e.args[1])
        c.ob(any(v == A.simp(A.read(A.sin[e.node], l)) for l in ls), "unchanged", f"the wait counter shown is that of the moment: {shown(v, 5)[:110]}", f"{RUNW} {e.span}")


def same_truth(D, A, F, g, v, w):
    f, k = A.cond(v), A.cond(w)
    return not sat(AND(F, g, OR(AND(f, NOT(k)), AND(NOT(f), k))))


def index_of(D, A, t):
    """the list element whose first component t is (the iteration number kept with a trial point)"""
    n = nd(A.simp(t))
    if n[0] == "fld" and n[2] == "0":
        y = nd(A.simp(n[1]))
        if y[0] == "elem":
            return A.simp(n[1])
    if n[0] in ("idx",):
        return A.simp(t)
    return None


def callbacks(c, D):
    A, q = D.A, D.q
    calls = [e for e in q.calls("invoke_callback") if D.inner(e.node) is not None]
    asks = [e for e in q.calls("should_invoke_callback") if D.inner(e.node) is not None]
    c.floor(len(calls), 1, "callback", "callbacks in Stage 2")
    # the loops over iterations: those that ask, take up a solution, show an iteration or relax the threshold
    rounds = {D.inner(e.node) for e in calls + asks + D.state(2, "set_iteration") + list(q.calls("process_local_solution")) if D.inner(e.node) is not None}
    rounds |= {A.flow.inl[w.node][0] for w in A.writes() if w.loc == loc(1, "merit_filter", "threshold") and A.flow.inl[w.node] and A.guard(w.node) != 0}
    for h in sorted(rounds):
        mine, ask = [e for e in calls if D.inner(e.node) == h], [e for e in asks if D.inner(e.node) == h]
        where = f"{RUNW} {(mine + ask)[0].span}" if mine + ask else RUNW
        c.ob(bool(ask), "callback:asked", f"every loop over iterations asks whether the callback is due: loop at {A.nodes[h].ctx.body.path.split('::')[-1]}", where)
        if not ask:
            continue
        due = OR(*[AND(A.rel(h, e.node), A.cond(e.ret)) for e in ask])
        c.ob(D.same(OR(*[A.rel(h, e.node) for e in mine]), due, h), "callback:due", "the callback is invoked exactly when it is due", where)
        c.ob(D.once(h, mine) and D.once(h, ask), "callback:once", "once in an iteration", where)
        its = {index_of(D, A, e.args[1]) for e in ask}
        c.ob(len(its) == 1 and None not in its, "callback:iteration", f"whether it is due is decided by the number of this iteration: {[shown(A.simp(e.args[1]), 4) for e in ask]}", where)
        # every iteration completed asks
        full = 0
        for p in A.flow.pred[h]:
            if (p, h) in A.flow.back:
                full = OR(full, A.region(h)[1].get((p, h), 0))
        asked = OR(*[A.rel(h, e.node) for e in ask])
        miss = AND(full, D.has, NOT(asked))
        if sat(miss):
            from r_gate import skip_formula
            pts = {x for x in its if x is not None}
            miss = AND(miss, NOT(skip_formula(A, h, [field(x, "1") for x in pts])))
        c.ob(not D.sat(h, miss), "callback:every", f"every iteration completed asks whether the callback is due: {A.show_f(miss)[:160]}", where)
        # the iteration shown
        sets = [e for e in D.state(2, "set_iteration") if D.inner(e.node) == h]
        c.ob(bool(sets) and all(index_of(D, A, e.args[1]) in its for e in sets), "iteration", "the iteration shown is the number of this iteration", where)
        got = OR(*[A.rel(h, e.node) for e in sets])
        c.ob(not D.sat(h, AND(OR(*[A.rel(h, e.node) for e in mine]), D.o2, NOT(got))), "iteration:shown", "the iteration is shown before the callback is invoked", where)
        for e in sets:
            for m in mine:
                c.ob(m.node not in before(A, h, e.node), "iteration:before", "and not after it", f"{RUNW} {e.span}")


def before(A, h, n):
    """nodes of h from which n is reached within the same round"""
    seen, st = set(), [n]
    while st:
        x = st.pop()
        for p in A.flow.pred[x]:
            if p in A.flow.loops[h] and p not in seen and x != h:
                seen.add(p)
                if p != h:
                    st.append(p)
    return seen


@rule("C23", ("all", "nodefault"))
def stage1_counts(c):
    """Stage 1: the trial points shown are those generated, and the reference set size shown at the end is that of the set handed over"""
    D = Stage1(c)
    A, q = D.A, D.q
    trials = set()
    for e in D.evals:
        h = D.inner(e.node)
        if h is not None and [x for x in q.calls("fetch_add") if D.inner(x.node) == h] and nd(A.simp(e.args[1]))[0] == "elem":
            trials.add(A.simp(nd(A.simp(e.args[1]))[1]))
    adds = list(q.calls("add_trial_points"))
    where = f"{SCW} {adds[0].span}" if adds else SCW
    c.ob(len(trials) == 1, "trials:list", "one list of trial points is evaluated", where)
    for e in adds:
        n = nd(uncast(A, e.args[1]))
        c.ob(n[0] == "call" and leafname(n[1]) == "len" and A.simp(n[2][0]) in trials, "trials", f"the trial points shown are those generated: {shown(A.simp(e.args[1]), 5)[:100]}", f"{SCW} {e.span}")
    oks = [(f, v, r) for f, v, r in returns(A, q) if nd(v)[0] == "agg" and nd(v)[2] == "Ok"]
    end = OR(*[f for f, v, r in oks])
    got = OR(*[A.guard(e.node) for e in adds])
    c.ob(D.same(AND(got, end), AND(end, D.o1)) and all(not sat(AND(A.guard(x.node), A.guard(y.node))) for i, x in enumerate(adds) for y in adds[:i]) and all(D.inner(e.node) is None for e in adds),
         "trials:once", "they are added once, iff stage 1 is observed", where)
    sizes = list(q.calls("set_reference_set_size"))
    last = [e for e in sizes if not any(x is not e and e.node in ancestors(A, x.node) and not sat(AND(A.guard(e.node), end, NOT(A.guard(x.node)))) for x in sizes)]
    c.floor(len(last), 1, "size", "last updates of the reference set size")
    for e in last:
        n = nd(uncast(A, e.args[1]))
        ok = n[0] == "call" and leafname(n[1]) == "len"
        if ok:
            bs = D.bases(A.simp(n[2][0]), AND(A.guard(e.node), end))
            rs = set()
            for f, v, r in oks:
                x = D.bases(A.simp(field(payload(v, "Ok"), "0")), AND(f, A.guard(e.node)))
                rs |= x or {None}
            ok = bs is not None and bs == rs
        c.ob(ok, "size", f"the reference set size shown is that of the set handed over: {shown(A.simp(e.args[1]), 5)[:100]}", f"{SCW} {e.span}")
    c.ob(not sat(AND(end, D.o1, D.excl, NOT(OR(*[A.guard(e.node) for e in last])))), "size:always", "it is shown whenever stage 1 is observed", SCW)


def ancestors(A, n):
    seen, st = set(), [n]
    while st:
        for p in A.flow.pred[st.pop()]:
            if p not in seen:
                seen.add(p)
                st.append(p)
    return seen


def same_set(A, q, t, node, l):
    """t is the solutions of the set in the optimiser's field at node"""
    cur = A.simp(A.read(A.sin[node], l))
    for g, v in q.cases(t):
        v = A.simp(v)
        want = {A.simp(field(payload(x), "solutions")) for g2, x in q.cases(cur)} | {A.simp(field(payload(cur), "solutions"))}
        if v not in want:
            return False
    return True


def best_of(c, A, q, x):
    """x is taken from a list as its item of least objective -> that list"""
    from r_scatter import order_of
    acc, comps, full = q.access(A.simp(x))
    if acc is None or not is_pick(acc) or leafname(nd(acc)[1]) != "min_by":
        return None
    it, cmpf = nd(acc)[2][0], nd(acc)[2][1]
    o = order_of(c, cmpf)
    return A.simp(it) if o == (("objective",), True) else None


@rule("C24", ("all", "nodefault"))
def shown_best(c):
    """OQNLP::run, Stage 2: after every local search taken up while observed, the best of the solution set as it then is, and its size, are shown"""
    D = Driver(c)
    A, q = D.A, D.q
    # the same run with the effect of taking up a solution on the optimiser's state kept
    opq = tuple(x for x in DRIVER)
    A2 = c.an("OQNLP::run", opq, keep=tuple(x for x in opq if x != "process_local_solution"), nopanic=True)
    q2 = Q(A2)
    S = loc(1, "solution_set")
    best = [e for e in q2.calls("set_best_solution") if "Stage2State" in e.path]
    size = [e for e in q2.calls("set_solution_set_size") if "Stage2State" in e.path]
    c.floor(len(best), 2, "best", "updates of the best solution shown in Stage 2")
    for e in best:
        with q2.under(e.node):
            o, p = A2.simp(e.args[1]), A2.simp(e.args[2])
            no, np_ = nd(o), nd(p)
            pair = no[0] == "fld" and no[2] == "objective" and np_[0] == "fld" and np_[2] == "point" and no[1] == np_[1]
            c.ob(pair, "pair", "the point shown comes with its own objective", f"{RUNW} {e.span}")
            lst = best_of(c, A2, q2, no[1]) if pair else None
            c.ob(lst is not None and same_set(A2, q2, lst, e.node, S), "best", f"the best solution shown is the best of the current solution set: {shown(o, 6)[:140]}", f"{RUNW} {e.span}")
    for e in size:
        n = nd(uncast(A2, e.args[1]))
        ok = n[0] == "call" and leafname(n[1]) == "len" and same_set(A2, q2, n[2][0], e.node, S)
        c.ob(ok, "size", f"the size shown is that of the current solution set: {shown(A2.simp(e.args[1]), 6)[:140]}", f"{RUNW} {e.span}")
    P = [e for e in q.calls("process_local_solution") if D.inner(e.node) is not None]
    has = A.isvar(field(A.argterm(1), "solution_set"), "Some", ["None", "Some"])
    for h in sorted({D.inner(e.node) for e in P}):
        ps = [e for e in P if D.inner(e.node) == h]
        # (an empty set has nothing to show)
        up = AND(OR(*[AND(A.rel(h, e.node), D.done(e), A.isvar(A.simp(A.read(A.sout[e.node], S)), "Some", ["None", "Some"])) for e in ps]), D.o2, D.excl)
        where = f"{RUNW} {ps[0].span}"
        for what, m in (("best", "set_best_solution"), ("size", "set_solution_set_size")):
            got = OR(*[A.rel(h, e.node) for e in D.state(2, m) if D.inner(e.node) == h])
            miss = AND(up, NOT(got))
            for a in atoms(miss):
                if a[0] == "is" and a[2] == "Some" and is_pick(a[1]):
                    miss = B.restrict(miss, vid(a), 1)
            c.ob(got != 0 and not D.sat(h, miss), f"{what}:always", f"the {what} is shown after every local search taken up: {A.show_f(miss)[:200]}", where)


def vid(a):
    return next(v for v in B.support(B.var(a)))


@rule("C24", ("all", "nodefault"))
def last_added(c):
    """process_local_solution: the solution shown as added last is the one taken up, exactly when it joins or replaces the solutions of an existing set"""
    A = c.an("OQNLP::process_local_solution", STAGES, keep=STAGES, nopanic=True)
    q = Q(A)
    D = Driver(c)
    me = A.argterm(1)
    old = field(me, "solution_set")
    had = A.isvar(old, "Some", ["None", "Some"])
    changed = OR(*[g for g, v, r in final(A, q, loc(1, "solution_set")) if A.simp(v) != A.simp(old) and not (nd(v)[0] == "agg" and nd(v)[2] == "None")])
    es = list(q.calls("set_last_added_solution"))
    where = "src/oqnlp.rs process_local_solution"
    c.floor(len(es), 1, "added", "updates of the solution added last")
    got = OR(*[A.guard(e.node) for e in es])
    ok = OR(*[f for f, v, r in returns(A, q) if nd(v)[0] == "agg" and nd(v)[2] == "Ok"])
    want = AND(had, changed, D.o2)
    c.ob(not sat(AND(ok, D.excl, OR(AND(got, NOT(want)), AND(NOT(got), want)))), "added", "the solution added last is shown exactly when the solution set changed", where)
    for e in es:
        c.ob(A.simp(e.args[1]) == A.simp(field(A.argterm(2), "point")), "added:point", f"it is the point of the solution taken up: {shown(A.simp(e.args[1]), 5)[:90]}", f"{where} {e.span}")


@rule("C24", ("all", "nodefault"))
def clocks(c):
    """OQNLP::run: a stage's clock is started when it is observed, and stopped by the time the run returns its result"""
    D = Driver(c)
    A, q = D.A, D.q
    oks = OR(*[f for f, v, r in returns(A, q) if nd(v)[0] == "agg" and nd(v)[2] == "Ok"])
    c.floor(int(oks != 0), 1, "ok", "successful returns of run()")
    for k in (1, 2):
        start, end = D.state(k, "start"), D.state(k, "end")
        where = f"{RUNW} {start[0].span}" if start else RUNW
        s, e = OR(*[A.guard(x.node) for x in start]), OR(*[A.guard(x.node) for x in end])
        c.ob(bool(start) and all(D.inner(x.node) is None for x in start) and D.once(None, start), f"start{k}", f"the clock of stage {k} is started once", where)
        c.ob(not sat(AND(oks, s, D.excl, NOT(e))), f"end{k}", f"the clock of stage {k} is stopped before the run returns: {A.show_f(AND(oks, s, D.excl, NOT(e)))[:200]}", where)
        for x in end:
            late = [y for y in q.calls("solve", "solve_with_tracking", "process_local_solution") if (y.node in after(A, x.node)) and (k == 2 or D.inner(y.node) is None)
                    and sat(AND(A.guard(x.node), A.guard(y.node)))]
            c.ob(not late, f"end{k}:work", f"the clock of stage {k} is stopped after the work of the stage", f"{RUNW} {x.span}")
        first = [y for y in q.calls("solve", "solve_with_tracking", "run") if (D.inner(y.node) is None) == (k == 1) and ("Solver" in y.path or "Scatter" in y.path)]
        for y in first:
            f = AND(A.guard(y.node), D.o1 if k == 1 else D.o2, D.excl)
            c.ob(not sat(AND(f, NOT(s))) and not any(x.node in after(A, y.node) for x in start), f"start{k}:before", f"the clock of stage {k} runs during its work", f"{RUNW} {y.span}")
    ts = list(q.calls("start_timer"))
    c.ob(D.same(OR(*[A.guard(x.node) for x in ts]), D.has) and D.once(None, ts) and not any(x.node in after(A, y.node) for x in ts for y in q.calls("solve", "solve_with_tracking", "run", "start")),
         "timer", "the observer's clock is started once, before anything else runs", RUNW)
    for k, m, f in ((1, "mark_stage1_complete", D.o1), (2, "mark_stage2_started", D.o2)):
        ms = list(q.calls(m))
        c.ob(bool(ms) and all(D.inner(x.node) is None for x in ms), m, f"{m} is called once the time has come", RUNW)
        if k == 2:
            s = OR(*[A.guard(x.node) for x in ms])
            for y in D.state(2, *UPD):
                if D.inner(y.node) is not None:
                    c.ob(not sat(AND(A.guard(y.node), D.excl, NOT(s))), "started", "what Stage 2 shows is visible", f"{RUNW} {y.span}")
        else:
            s = OR(*[A.guard(x.node) for x in ms])
            e = OR(*[A.guard(x.node) for x in D.state(1, "end")])
            c.ob(not sat(AND(e, D.excl, NOT(s), oks)), "completed", "Stage 1 is marked complete when it ended", RUNW)
            for x in ms:
                c.ob(not [y for y in D.state(1, *UPD) if y.node in after(A, x.node) and sat(AND(A.guard(x.node), A.guard(y.node)))], "completed:after", "nothing changes in Stage 1 after that", f"{RUNW} {x.span}")


def after(A, n):
    seen, st = set(), [n]
    while st:
        for p in A.flow.succ[st.pop()]:
            if p not in seen:
                seen.add(p)
                st.append(p)
    return seen
