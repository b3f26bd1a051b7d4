"""The Python bindings: keywords, defaults, attributes and methods mean what their names say; failures of Python callbacks are errors."""
import math
from lib import *
from runlib import *
import r_build
from r_build import EPS, SQ, INF, concrete, same, Unknown

PYG = "pyglobalsearch::"
MT = {"c1": 1e-4, "c2": 0.9, "width_tolerance": 1e-10, "bounds": [SQ, INF]}
LSP = {"method": ("MoreThuente", {"0": MT})}
# documented defaults of the Python classes; None-able entries are given as (None,), undocumented or inconsistently documented ones are left out
DEFAULTS = {
    "PyOQNLPParams": {"iterations": 300, "population_size": 1000, "wait_cycle": 15, "threshold_factor": 0.2, "distance_factor": 0.75, "abs_tol": 1e-8, "rel_tol": 1e-6},
    "PyHagerZhang": {"delta": 0.1, "sigma": 0.9, "epsilon": 1e-6, "theta": 0.5, "gamma": 0.66, "eta": 0.01},
    "PyMoreThuente": {"c1": 1e-4, "c2": 0.9, "width_tolerance": 1e-10},
    "PyLBFGS": {"max_iter": 300, "tolerance_grad": SQ, "tolerance_cost": EPS, "history_size": 10, "l1_coefficient": None, "line_search_params": LSP},
    "PyNelderMead": {"simplex_delta": 0.1, "sd_tolerance": EPS, "max_iter": 300, "alpha": 1.0, "gamma": 2.0, "rho": 0.5, "sigma": 0.5},
    "PySteepestDescent": {"max_iter": 300, "line_search_params": LSP},
    "PyNewtonCG": {"max_iter": 300, "curvature_threshold": 0.0, "line_search_params": LSP},
    "PyTrustRegion": {"trust_region_radius_method": ("Cauchy", {}), "max_iter": 300, "radius": 1.0, "max_radius": 100.0, "eta": 0.125},
    "PyCOBYLA": {"max_iter": 300, "step_size": 1.0, "ftol_rel": None, "ftol_abs": None, "xtol_rel": None, "xtol_abs": None},
    "PyProblem": {"gradient": None, "hessian": None, "constraints": None},
}
OPTIMIZE = {k: None for k in ("observer", "local_solver", "local_solver_config", "seed", "target_objective", "max_time", "verbose", "exclude_out_of_bounds", "parallel", "with_points")}
RENAMED = {("COBYLA", "initial_step_size"): "step_size"}
TYPES = ["LBFGS", "NelderMead", "SteepestDescent", "TrustRegion", "NewtonCG", "COBYLA"]


def extractions(A):
    """keyword -> (term of the extracted value's result, default closure or None)"""
    r = {}
    for e in A.events():
        lf = leafname(e.path)
        if lf.startswith("extract_") and "argument" in lf and "arguments" not in lf:
            nm = [nd(x)[1] for x in e.args if nd(x)[0] == "c" and str(nd(x)[1]).startswith("\"")]
            if len(nm) == 1:
                dflt = nd(e.args[-1])
                r[str(nm[0]).strip("\"")] = (e.ret, dflt[1] if dflt[0] == "agg" and "{closure" in str(dflt[1]) else None)
    return r


def root(A, x):
    """the value a chain of payloads (Ok/Some) was taken from"""
    x = A.simp(x)
    while nd(x)[0] == "fld" and str(nd(x)[2]) in ("#Ok", "#Some", "0"):
        x = A.simp(nd(x)[1])
    return x


def classes(c):
    out = {}
    for p in c.prog().bodies:
        if p.startswith(PYG) and p.endswith("::__pymethod___new____"):
            out[p.rsplit("::", 2)[1]] = p
    return out


def built(A, q, cls):
    """[(guard, {field: term})] of the objects of that class the wrapper hands to Python"""
    res = []
    for e in A.events():
        if leafname(e.path) in ("convert", "map_into_ptr", "map_into_pyobject", "tp_new_impl", "initialize_tp_new", "wrap"):
            for x in e.args:
                res += of_class([(B.AND(g, A.guard(e.node)), v) for g, v in q.cases(x)], A, q, cls)
    return res


def of_class(cases, A, q, cls):
    res = []
    for g, v in cases:
        n = nd(A.simp(v))
        if n[0] == "agg" and n[2] == "Ok":
            n = nd(A.simp(n[4][0]))
        if g != 0 and n[0] == "agg" and n[1].rsplit("::", 1)[-1] == cls:
            res.append((g, dict(zip([str(f) for f in n[3]], n[4]))))
    return res


def functions(c):
    """wrappers of the constructor functions of the builders module"""
    return {p.rsplit("__pyfunction_", 1)[1]: p for p in c.prog().bodies if p.startswith(PYG + "builders::__pyfunction_") and "::" not in p.rsplit("__pyfunction_", 1)[1]}


def canon_name(s):
    s = s.lower().replace("_", "")
    return s[2:] if s.startswith("py") else s


@rule("C27", ("python",), python=True)
def keywords(c):
    """every keyword of a Python constructor (class or builder function) is stored, unchanged, in the field of its name; omitted keywords have the documented defaults"""
    cl, fs = classes(c), functions(c)
    c.floor(len(cl), 10, "classes", "Python classes with a constructor")
    c.floor(len(fs), 8, "functions", "builder functions")
    jobs = [(k, p, k) for k, p in cl.items()] + [(f, p, next((k for k in cl if canon_name(k) == canon_name(f)), None)) for f, p in fs.items()]
    n = 0
    for name, p, cls in sorted(jobs):
        c.need(cls, f"{name}:class", f"builder function {name} has a class", p)
        A = c.an(p)
        q = Q(A)
        ex = extractions(A)
        where = f"python/{A.inl.entry_body.file} {name}"
        fields = {f["name"] for f in c.prog().adts[cl[cls].rsplit("::", 1)[0]]["vars"][0]["fields"]}
        if name == cls:
            objs = built(A, q, cls)
            src = {k: A.simp(t[0]) for k, t in ex.items()}
        else:
            F = passed(c, A, q, PYG + "builders::" + name, ex, name, where)
            A2 = c.an(F)
            A, q = A2, Q(A2)
            objs = of_class([(g, v) for g, v, r in returns(A, q)], A, q, cls)
            src = {k: A.simp(A.argterm(i + 1)) for i, k in enumerate(argnames(A))}
        keys = sorted(set(ex) & fields)
        if not keys:
            continue
        c.need(objs, f"{name}:object", f"{name} makes a {cls}", where)
        for k in keys:
            n += 1
            ok = k in src
            for g, flds in objs if ok else []:
                for g2, v in q.cases(flds[k]):
                    if B.AND(g, g2) == 0:
                        continue
                    ok &= any(root(A, y) == src[k] or nd(root(A, y))[0] == "call" and leafname(nd(root(A, y))[1]) == "extract" and
                              root(A, nd(root(A, y))[2][0]) == src[k] for y in wrapped(A, v))
            c.ob(ok, f"{name}:{k}", f"{name}({k}=...) is stored in the field {k}", where)
        want = DEFAULTS.get(cls, {})
        for k, w in sorted(want.items()):
            if name == cls:
                c.ob(k in ex and ex[k][1], f"{name}:{k}:keyword", f"{name} takes {k}, and it can be omitted", where)
            if k in ex and ex[k][1]:
                c.ob(default_is(c, ex[k][1], w), f"{name}:{k}:default", f"{name}: {k} defaults to the documented {w}", where)
    c.floor(n, 60, "keywords", "keywords")
    A = c.an(PYG + "__pyfunction_optimize")
    q = Q(A)
    ex = extractions(A)
    where = "python/src/lib.rs optimize"
    for k, w in OPTIMIZE.items():
        c.ob(k in ex and (ex[k][1] and default_is(c, ex[k][1], w)), f"optimize:{k}", f"optimize: {k} can be omitted", where)
    passed(c, A, q, PYG + "optimize", ex, "optimize", where)


def passed(c, A, q, fn, ex, name, where):
    """the keywords arrive as the function's arguments of the same name"""
    names = argnames(c.an(fn, ("OQNLP::",)))
    calls = [e for e in A.events() if e.path == "dyn-call" and nd(e.args[0])[0] == "fnitem" and nd(e.args[0])[1] == fn]
    c.need(len(calls) == 1, f"{name}:called", f"the wrapper calls {name}", where)
    e = calls[0]
    for nm, x in zip(names, e.args[1:]):
        rs = {root(A, v) for g, v in q.cases(x) if B.AND(g, A.guard(e.node)) != 0}
        if nm in ("py", "_py"):
            continue
        c.ob(nm in ex and rs == {A.simp(ex[nm][0])}, f"{name}:{nm}:passed", f"{name}({nm}=...) arrives as {nm}", where)
    return fn


def argnames(A):
    return [str(nd(A.argterm(i + 1))[2]) for i in range(A.inl.entry_body.argc)]


def wrapped(A, v):
    """the value itself, or what the enum (a line search method) wraps"""
    v = A.simp(v)
    out = [v]
    n = nd(v)
    while n[0] == "agg" and len(n[4]) == 1:
        v = A.simp(n[4][0])
        out.append(v)
        n = nd(v)
    return out


def default_is(c, closure, want):
    A = c.an(closure)
    v = r_build.only(A, Q(A))
    if v is None:
        return False
    if nd(v)[0] == "call" and leafname(nd(v)[1]) == "wrap":
        v = A.simp(nd(v)[2][0])
    try:
        return same(concrete(A, v), want)
    except Unknown:
        return False


def line_search(c, A, q, key, v, P, where):
    """the line search configuration is the one the Python object holds"""
    meth = field(field(P, "line_search_params"), "method")
    ok, seen = True, set()
    for g, x in q.cases(v):
        var, cfg = r_build.config_of(A.simp(x))
        if var is None and nd(x)[0] == "agg" and len(nd(x)[4]) == 1:
            for g2, y in q.cases(nd(x)[4][0]):
                if B.AND(g, g2) != 0:
                    var, cfg = r_build.config_of(A.simp(y))
                    ok &= one_method(A, q, B.AND(g, g2), var, cfg, meth, seen)
            continue
        ok &= one_method(A, q, g, var, cfg, meth, seen)
    c.ob(ok and seen == {"MoreThuente", "HagerZhang"}, f"{key}:line_search", f"the line search method and every parameter of it are those of line_search_params ({sorted(map(str, seen))})", where)


def one_method(A, q, g, var, cfg, meth, seen):
    if var not in ("MoreThuente", "HagerZhang"):
        return False
    seen.add(var)
    src = project(project(meth, "#" + var), "0")
    is_mt = isvar(A, meth, "MoreThuente", ["MoreThuente", "HagerZhang"])
    ok = implies(g, is_mt if var == "MoreThuente" else NOT(is_mt))
    want = {"MoreThuente": 4, "HagerZhang": 7}[var]
    return ok and len(cfg) == want and all({A.simp(x) for g2, x in q.cases(v)} == {A.simp(field(src, s))} for s, v in cfg.items())


@rule("C27", ("python",), python=True)
def settings(c):
    """optimize(): each parameter, the solver configuration, each option and the custom points reach the optimiser's setting of that name, and only if given"""
    A = c.an(PYG + "optimize", ("OQNLP::",))
    q = Q(A)
    news = [e for e in q.calls("new") if "::OQNLP::" in e.path]
    c.need(len(news) == 1, "new", f"one optimiser is made: {len(news)}")
    e = news[0]
    where = e.where()
    top = A.guard(e.node)
    me = {n: A.argterm(i + 1) for i, n in enumerate(argnames(A))}
    par = nd(A.simp(e.args[1]))
    c.need(par[0] == "agg", "params", "the parameters are built in place", where)
    par = dict(zip([str(x) for x in par[3]], par[4]))

    def vals(t, g=1):
        return {A.simp(v) for h, v in q.cases(t) if AND(g, h, top) != 0}
    c.ob(A.simp(e.args[0]) == A.simp(me["problem"]), "problem", "the problem is the one given", where)
    for k in ("iterations", "population_size", "wait_cycle", "threshold_factor", "distance_factor"):
        c.ob(vals(par[k]) == {A.simp(field(me["params"], k))}, f"params:{k}", f"{k} is params.{k}: {[shown(v, 4) for v in vals(par[k])]}", where)
    opt_value(c, A, q, "seed", par["seed"], me["seed"], const(0, "u64"), top, where)
    # solver and configuration
    T = A.simp(par["local_solver_type"])
    solver_type(c, A, q, T, me["local_solver"], top, where)
    given = some(A, me["local_solver_config"])
    n = 0
    for ty in TYPES:
        of_type = OR(*[g for g, v in q.cases(T) if nd(v)[0] == "agg" and nd(v)[2] == ty])
        n += of_type != 0
        for g, v in q.cases(par["local_solver_config"]):
            g = AND(g, of_type, top)
            if g == 0:
                continue
            var, cfg = r_build.config_of(A.simp(v))
            c.ob(var == ty, f"config:{ty}:variant", f"solver type {ty} gets a {ty} configuration, not {var}", where)
            if var != ty:
                continue
            if not sat(B.AND(g, NOT(given))):
                configured(c, A, q, ty, cfg, me["local_solver_config"], where)
            else:
                c.ob(not sat(B.AND(g, given)), f"config:{ty}:given", "a given configuration is not replaced by the default", where)
                try:
                    got = {k: concrete(A, x) for k, x in cfg.items()}
                except Unknown as ex:
                    got = str(ex)
                w = r_build.DOC[ty]
                c.ob(isinstance(got, dict) and defaults_agree(got, w), f"config:{ty}:default", f"without a configuration the default one of {ty} is used: {got}", where)
    c.floor(n, 6, "types", "solver types")
    # options
    runs = [x for x in q.calls("run") if "::OQNLP::" in x.path and A.guard(x.node) != 0]
    c.need(runs, "run", "the optimiser is run")
    memo = {}

    def has(t, m):
        """when the optimiser t was configured by m"""
        t = A.simp(t)
        if (t, m) in memo:
            return memo[t, m]
        memo[t, m] = 0
        f = 0
        for g, v in q.cases(t):
            v = root(A, v)
            if nd(v)[0] == "phi" and v != t:
                f = B.OR(f, B.AND(g, has(v, m)))
            elif nd(v)[0] == "call" and "::OQNLP::" in nd(v)[1] or nd(v)[0] == "call" and "OQNLP" in nd(v)[1]:
                f = B.OR(f, g if leafname(nd(v)[1]) == m else B.AND(g, has(nd(v)[2][0], m)) if leafname(nd(v)[1]) != "new" else 0)
        memo[t, m] = f
        return f
    want = {"with_points": some(A, me["with_points"]), "add_observer": some(A, me["observer"]), "parallel": 1, "target_objective": some(A, me["target_objective"]),
            "max_time": some(A, me["max_time"]), "verbose": AND(some(A, me["verbose"]), A.cond(payload(me["verbose"]))),
            "exclude_out_of_bounds": AND(some(A, me["exclude_out_of_bounds"]), A.cond(payload(me["exclude_out_of_bounds"]))), "with_tolerance": 1}
    for m, w in want.items():
        ok = True
        for r in runs:
            g = A.guard(r.node)
            f = has(r.args[0], m)
            ok &= not sat(AND(g, w, NOT(f))) and not sat(AND(g, NOT(w), f))
        c.ob(ok, f"option:{m}", f"{m} is applied to the optimiser that runs exactly if asked for", runs[0].where())
    for m, src in (("target_objective", payload(me["target_objective"])), ("max_time", payload(me["max_time"]))):
        for x in q.calls(m):
            if "OQNLP" in x.path and A.guard(x.node) != 0:
                c.ob({A.simp(v) for g, v in q.cases(x.args[1]) if B.AND(g, A.guard(x.node)) != 0} == {A.simp(src)}, f"option:{m}:value", f"{m} gets the value given: {shown(x.args[1], 4)}", x.where())
    for x in q.calls("with_tolerance"):
        if "OQNLP" in x.path:
            c.ob([A.simp(y) for y in x.args[1:]] == [A.simp(field(me["params"], "abs_tol")), A.simp(field(me["params"], "rel_tol"))], "tolerance", "the tolerances are params.abs_tol and params.rel_tol, in that order", x.where())
    for x in q.calls("parallel"):
        if "OQNLP" in x.path and A.guard(x.node) != 0:
            flag(c, A, q, x, me["parallel"])
    points(c, A, q, me)


def opt_value(c, A, q, key, t, o, dflt, top, where):
    ok = True
    for g, v in q.cases(t):
        g = B.AND(g, top)
        if g == 0:
            continue
        v = A.simp(v)
        if v == A.simp(payload(o)):
            ok &= not sat(B.AND(g, NOT(some(A, o))))
        elif nd(v)[0] == "c" and nd(v)[1] == nd(dflt)[1]:
            ok &= not sat(B.AND(g, some(A, o)))
        else:
            ok = False
    c.ob(ok, key, f"{key} is the one given, or the documented default: {shown(t, 4)}", where)


def flag(c, A, q, x, o):
    f = 0
    for g, v in q.cases(x.args[1]):
        f = B.OR(f, B.AND(g, A.cond(v)))
    w = AND(some(A, o), A.cond(payload(o)))
    g = A.guard(x.node)
    c.ob(not sat(AND(g, w, NOT(f))) and not sat(AND(g, f, NOT(w))), "parallel:value", "parallel mode is on exactly if parallel=True was given", x.where())


NAMES = {"lbfgs": "LBFGS", "nelder-mead": "NelderMead", "neldermead": "NelderMead", "steepestdescent": "SteepestDescent", "trustregion": "TrustRegion", "newton-cg": "NewtonCG", "newtoncg": "NewtonCG", "cobyla": "COBYLA"}


def solver_type(c, A, q, T, arg_, top, where):
    """the type is the one of the given name, COBYLA without a name"""
    ats = {}
    low = None
    for a in set(atoms(B.AND(top, OR(*[g for g, v in q.cases(T)])))) | set().union(*[set(atoms(g)) for g, v in q.cases(T)]):
        if a[0] == "b" and nd(a[1])[0] == "call" and leafname(nd(a[1])[1]) == "eq":
            x, y = nd(a[1])[2]
            if nd(y)[0] == "c" and str(nd(y)[1]).startswith("\""):
                ats[str(nd(y)[1]).strip("\"")] = a
                low = x
    c.need(ats and low is not None, "solver:names", "the solver is chosen by its name", where)
    n = nd(A.simp(low))
    c.ob(n[0] == "call" and leafname(n[1]) in ("to_lowercase", "to_ascii_lowercase"), "solver:case", "names are matched whatever their case", where)
    vals = []
    for g, v in q.cases(n[2][0]) if n[0] == "call" else []:
        vals.append((g, A.simp(v)))
    ok = bool(vals)
    for g, v in vals:
        if v == A.simp(payload(arg_)):
            ok &= not sat(AND(g, top, NOT(some(A, arg_))))
        else:
            ok &= nd(v)[0] == "c" and str(nd(v)[1]).strip("\"").lower() == "cobyla" and not sat(AND(g, top, some(A, arg_)))
    c.ob(ok, "solver:default", f"the name is the one given, or cobyla: {[shown(v, 4) for g, v in vals]}", where)
    for nm, ty in NAMES.items():
        c.ob(nm in ats, f"solver:{nm}", f"{nm} is a known name", where)
        if nm not in ats:
            continue
        f = 1
        for o, a in ats.items():        # a name equals one of the literals
            f = B.AND(f, B.var(a) if o == nm else NOT(B.var(a)))
        for g, v in q.cases(T):
            if AND(f, g, top) != 0:
                c.ob(nd(v)[0] == "agg" and nd(v)[2] == ty, f"solver:{nm}:type", f"{nm} selects {ty}: {shown(v, 3)}", where)


def defaults_agree(got, w):
    for k, x in w.items():
        if k not in got:
            return False
        if k == "line_search_params":
            m = got[k]["method"] if isinstance(got[k], dict) else None
            if not (m and m[0] == x["method"][0] and same(m[1], x["method"][1])):
                return False
        elif not same(got[k], x):
            return False
    return set(got) == set(w)


def configured(c, A, q, ty, cfg, src, where):
    """every setting of the configuration is the attribute of that name of the Python object given"""
    P = None
    for e in A.events():
        if leafname(e.path) in ("extract", "extract_bound") and e.args and A.simp(e.args[0]) == A.simp(payload(src)) and f"::Py{ty}," in str(nd(A.simp(e.ret))[3]):
            P = payload(e.ret, "Ok")
    c.need(P is not None, f"config:{ty}:object", "the configuration object is read from the argument", where)
    for s, v in cfg.items():
        pf = RENAMED.get((ty, s), s)
        if s == "line_search_params":
            line_search(c, A, q, f"config:{ty}", v, P, where)
            continue
        A_ = field(P, pf)
        if s == "trust_region_radius_method":
            ok, seen = True, set()
            for g, x in q.cases(v):
                n = nd(A.simp(x))
                if n[0] != "agg" or n[2] not in ("Cauchy", "Steihaug"):
                    ok = False
                    continue
                seen.add(n[2])
                ok &= implies(g, isvar(A, A_, n[2], ["Cauchy", "Steihaug"]))
            c.ob(ok and len(seen) == 2, f"config:{ty}:{s}", f"{s} is the method of that name", where)
            continue
        ok, dflt = True, False
        for g, x in q.cases(v):
            x = A.simp(x)
            if x == A.simp(A_):
                continue
            if x == A.simp(payload(A_)):
                ok &= implies(g, some(A, A_))
                continue
            try:
                k = concrete(A, x)
                ok &= implies(g, NOT(some(A, A_))) and same(k, r_build.DOC[ty][s])
            except Unknown:
                ok = False
        c.ob(ok, f"config:{ty}:{s}", f"{s} is {pf} of the configuration given (its default if that is None): {[shown(x, 5) for g, x in q.cases(v)]}", where)


def points(c, A, q, me):
    """custom points: a matrix with one row per point"""
    src = A.simp(payload(me["with_points"]))
    ms = [e for e in q.calls("from_shape_vec") if A.guard(e.node) != 0]
    ws = [e for e in q.calls("with_points") if "OQNLP" in e.path]
    c.need(len(ms) >= 1 and len(ws) == 1, "points:matrix", "custom points become one matrix")
    w = ws[0]
    for e in ms:
        c.ob(matrix_of(A, q, e, src), "points:rows", "the matrix holds one row per point, every point in its own row, and points of different lengths are refused", e.where())
    rs = {root(A, v) for g, v in q.cases(w.args[1]) if B.AND(g, A.guard(w.node)) != 0}
    c.ob(rs == {A.simp(e.ret) for e in ms}, "points:passed", "the matrix is what with_points gets", w.where())


def matrix_of(A, q, e, src, square=False):
    """from_shape_vec((n, m), v): v lists the rows of src one after another, n is their number, and each has length m wherever the result is used"""
    n = nd(A.simp(e.args[0]))
    if n[0] != "agg" or len(n[4]) != 2:
        return False
    lens = {A.simp(v) for g, v in q.cases(n[4][0]) if B.AND(g, A.guard(e.node)) != 0}
    flat = {A.simp(q.copy_of(v)) for g, v in q.cases(e.args[1]) if B.AND(g, A.guard(e.node)) != 0}
    if len(flat) != 1:
        return False
    f0 = flat.pop()
    f = nd(f0)
    if f[0] == "phi":
        if not appended(A, q, f0, src):
            return False
    elif f[0] != "call" or leafname(f[1]) not in ("flatten", "concat") or A.simp(f[2][0]) != src:
        return False
    if lens != {A.simp(mk(("call", "len", (src,))))} and not all(is_len(A, x, src) for x in lens):
        return False
    # every row has the length the shape says
    cols = n[4][1]
    need = 0
    for a in atoms(A.guard(e.node)):
        if a[0] == "exists":
            need = need or rows_of(A, q, a, src, cols, e)
    return bool(need)


def appended(A, q, phi, src):
    """the vector is filled by a loop over src that appends each row to it"""
    inner = None
    for t in A.phi_ops(phi).values():
        t = A.simp(t)
        n = nd(t)
        if n[0] == "call" and leafname(n[1]) in ("new", "with_capacity"):
            continue
        if n[0] != "phi" or inner is not None:
            return False
        inner = t
    if inner is None:
        return False
    for t in A.phi_ops(inner).values():
        t = A.simp(t)
        n = nd(t)
        if t == A.simp(phi):
            continue
        x = nd(A.simp(n[2])) if n[0] == "push" and A.simp(n[1]) == inner else ("",)
        row = nd(A.simp(x[1])) if x[0] == "elem" else ("",)
        if row[0] != "elem" or A.simp(row[1]) != src:
            return False
    return True


def is_len(A, x, src):
    n = nd(A.simp(x))
    return n[0] == "call" and leafname(n[1]) in ("len", "nrows") and A.simp(n[2][0]) == src


def rows_of(A, q, a, src, cols, e):
    """the atom says: some row of src does not have length cols; and it is false at e"""
    doms, body = a[1], a[2]
    if len(doms) != 1:
        return False
    if not implies(A.guard(e.node), NOT(B.var(a))):
        return False
    d = doms[0]
    d = d[0] if isinstance(d, tuple) else d
    el = [x for b in atoms(body) for x in subterms(b) if nd(x)[0] == "elem"]
    rows = {A.simp(nd(x)[1]) for x in el}
    if rows != {src}:
        return False
    for x in set(el):
        ln = A.simp(mk(("call", "len", (x,))))
        for b in atoms(body):
            if b[0] == "eq" and body == NOT(B.var(b)):
                sides = {A.simp(b[1]), A.simp(b[2])}
                if any(is_len(A, s, A.simp(x)) for s in sides):
                    other = [s for s in sides if not is_len(A, s, A.simp(x))]
                    g = A.guard(e.node)
                    want = {A.simp(v) for h, v in q.cases(cols) if sat(B.AND(g, h))}
                    got = {A.simp(v) for o in other for h, v in q.cases(o) if sat(B.AND(g, h))}
                    if got == want:
                        return True
    return False


def subterms(b):
    out, todo = set(), [x for x in b[1:] if isinstance(x, int)]
    while todo:
        t = todo.pop()
        if t in out:
            continue
        out.add(t)
        todo += children(t)
    return out


@rule("C27", ("python",), python=True)
def results(c):
    """optimize() returns every solution of the run, in order, each with its own point and objective; a failed run, parameter or point raises; the observer given shows the run"""
    A = c.an(PYG + "optimize", ("OQNLP::",))
    q = Q(A)
    me = {n: A.argterm(i + 1) for i, n in enumerate(argnames(A))}
    runs = [x for x in q.calls("run") if "::OQNLP::" in x.path and A.guard(x.node) != 0]
    where = "python/src/lib.rs optimize"
    c.need(runs, "run", "the optimiser is run", where)
    rets = {A.simp(x.ret) for x in runs}
    oks = 0
    okg = 0
    for f, v, r in returns(A, q):
        n = nd(A.simp(v))
        if n[0] == "agg" and n[2] == "Ok":
            oks += 1
            okg = B.OR(okg, f)
            x = nd(A.simp(n[4][0]))
            s = A.simp(x[4][0]) if x[0] == "agg" and len(x[4]) == 1 else None
            m = q.mapped(s) if s is not None else None
            c.need(m, "list", "the list returned is made from the solutions one by one", where)
            src = {root(A, field_base(A, y, "solutions")) for g, y in q.cases(m[0]) if B.AND(f, g) != 0}
            src = {z for y in src for g, z0 in q.cases(y) for z in [root(A, z0)]}
            c.ob(src <= rets and src, "list:source", f"they are the solutions of the run: {[shown(z, 3) for z in src]}", where)
            it = nd(A.simp(m[1]))
            d = dict(zip([str(z) for z in it[3]], it[4])) if it[0] == "agg" else {}
            el = {A.simp(d[k]): k for k in ("point", "objective") if k in d}
            got = {k: nd(t) for t, k in el.items()}
            c.ob(set(d) == {"point", "objective"} and all(g[0] == "fld" and str(g[2]) == k and nd(A.simp(g[1]))[0] == "elem" for k, g in got.items()) and
                 len({A.simp(g[1]) for g in got.values()}) == 1, "list:item", "each with its own point and objective", where)
            c.ob(q.copy_of(s) != s or complete(A, q, s), "list:all", "none is left out", where)
        elif n[0] == "agg" and n[2] == "Err":
            pass
        else:
            c.ob(False, "return", f"optimize returns a set or an error: {shown(v, 3)}", where)
    c.ob(oks > 0, "returns", "optimize returns the solutions", where)
    for x in runs:
        for g, b in ((f, v) for f, v, r in returns(A, q)):
            if nd(A.simp(b))[2] == "Ok":
                bad = AND(g, A.guard(x.node), NOT(isvar(A, x.ret, "Ok", ["Ok", "Err"])))
                c.ob(not sat(bad), "failed_run", "a failed run raises", x.where())
    # the observer shows the run
    given = some(A, me["observer"])
    done = 0
    for n, st in A.sout.items():
        for k, v in st.items():
            if isinstance(v, int) and len(k) == 1 and k[0][0] == "L" and str(A.inl.ltype[k[0][1]][0]).startswith("std::sync::RwLockWriteGuard"):
                for g, y in q.cases(v):
                    y = root(A, y)
                    if nd(y)[0] == "call" and leafname(nd(y)[1]) == "observer" and "OQNLP" in nd(y)[1]:
                        done = OR(done, AND(A.guard(n), g, some(A, y)))
    obs = [e for e in q.calls("observer") if "OQNLP" in e.path]
    none = OR(*[AND(A.guard(e.node), NOT(some(A, e.ret))) for e in obs])
    c.ob(obs and not sat(AND(okg, given, NOT(done), NOT(none))), "observer", "the observer given is updated with what the run observed", obs[0].where() if obs else where)
    for e in q.calls("add_observer"):
        if "OQNLP" in e.path and A.guard(e.node) != 0:
            src = {root(A, z) for g, z in q.cases(e.args[1]) if B.AND(g, A.guard(e.node)) != 0}
            ok = bool(src)
            for z in src:
                if nd(z)[0] == "call" and leafname(nd(z)[1]) == "with_callback":
                    z = root(A, nd(z)[2][0])
                ok &= nd(z)[0] == "at" or "RwLock" in str(nd(z)[1]) or shown(z, 6).startswith("RwLock::read(")
            c.ob(ok, "observer:given", "the optimiser observes with the observer given", e.where())


def field_base(A, t, name):
    t = A.simp(t)
    n = nd(t)
    return A.simp(n[1]) if n[0] == "fld" and str(n[2]) == name else t


def complete(A, q, s):
    """the loop that fills the list s ends only when its source is exhausted"""
    n = nd(s)
    if n[0] != "phi" or n[2] not in A.flow.loops:
        return False
    h = n[2]
    body = A.flow.loops[h]
    for (u, w), f in A.region(h)[1].items():
        if u in body and w not in body and f != 0:
            ends = [a for a in atoms(f) if a[0] == "is" and a[2] == "Some" and nd(a[1])[0] == "next"]
            if not any(implies(f, NOT(B.var(a))) for a in ends):
                return False
    return True


STAGES = {"PyStage1State": "Stage1State", "PyStage2State": "Stage2State"}
CORE_OBS = ("observers::Stage1State::", "observers::Stage2State::", "observers::Observer::")


@rule("C27", ("python",), python=True)
def attributes(c):
    """each attribute and method of the Python classes reads or changes what its name says"""
    bodies = c.prog().bodies
    n = 0
    for cls, core in STAGES.items():
        pre = PYG + "observers::" + cls + "::"
        for p in sorted(bodies):
            m = p[len(pre):]
            if not p.startswith(pre) or "::" in m or m.startswith("__") or "{" in m:
                continue
            A = c.an(p, CORE_OBS)
            q = Q(A)
            n += 1
            want = [b for b in bodies if b.endswith(f"::observers::{core}::{m}")]
            vs = {reads(A, q, v) for f, v, r in returns(A, q) if not is_none(A, v)}
            if not want:
                continue
            c.ob(len(vs) == 1 and is_call(A, next(iter(vs)), core + "::" + m, "inner"), f"{cls}:{m}", f"{cls}.{m} is {core}::{m}: {[shown(v, 4) for v in vs]}", f"python/src/observers.rs {cls}::{m}")
    c.floor(n, 18, "attributes", "attributes of the stage states")
    k = 0
    pre = PYG + "observers::PyObserver::"
    for p in sorted(bodies):
        m = p[len(pre):]
        if not p.startswith(pre) or "::" in m or m.startswith("__") or "{" in m:
            continue
        if not any(b.endswith(f"::observers::Observer::{m}") for b in bodies) or m in ("with_callback", "new"):
            continue
        A = c.an(p, CORE_OBS)
        q = Q(A)
        k += 1
        where = f"python/src/observers.rs PyObserver::{m}"
        out = {}
        for r in A.exits():
            for l, v in A.sout[r].items():
                if isinstance(v, int) and len(l) == 1 and l[0][0] == "L" and str(A.inl.ltype[l[0][1]][0]).startswith("std::sync::RwLockWriteGuard"):
                    out.setdefault(r, set()).add(A.simp(v))
        if out or any(True for _ in q.calls("write")):
            ok = bool(out) and set(out) == set(A.exits())
            for vs in out.values():
                ok &= len(vs) == 1 and is_call(A, root(A, next(iter(vs))), "Observer::" + m, None, [A.argterm(i + 2) for i in range(A.inl.entry_body.argc - 1)])
            c.ob(ok, f"PyObserver:{m}", f"Observer.{m}() configures the observer with {m} and its argument: {[shown(v, 4) for vs in out.values() for v in vs]}", where)
        else:
            vs = {reads(A, q, v) for f, v, r in returns(A, q) if not is_none(A, v)}
            c.ob(len(vs) == 1 and is_call(A, root(A, next(iter(vs))), "Observer::" + m, None), f"PyObserver:{m}", f"Observer.{m} is the observer's {m}: {[shown(v, 4) for v in vs]}", where)
            for f, v, r in returns(A, q):
                if is_none(A, v):
                    cs = [e for e in A.events() if leafname(e.path) == m]
                    c.ob(cs and not sat(AND(f, some(A, cs[0].ret))), f"PyObserver:{m}:none", "None only if there is none", where)
    c.floor(k, 12, "methods", "methods of the observer")
    # the callback
    A = c.an(pre + "clone_inner", CORE_OBS)
    q = Q(A)
    cb = field(A.argterm(1), "python_callback")
    for f, v, r in returns(A, q):
        v = A.simp(v)
        on = nd(v)[0] == "call" and leafname(nd(v)[1]) == "with_callback"
        c.ob(not sat(AND(f, some(A, cb) if not on else NOT(some(A, cb)))), "callback:used", "the observer calls the Python callback if there is one", "python/src/observers.rs clone_inner")
    A = c.an(pre + "with_callback")
    q = Q(A)
    vs = {A.simp(v) for f, v, r in final(A, q, loc(1, "python_callback"))}
    c.ob(vs and all(root(A, field0(A, v)) == A.simp(A.argterm(2)) for v in vs), "callback:set", "with_callback keeps the callback given", "python/src/observers.rs with_callback")
    cl = [p for p in bodies if p.startswith(pre + "clone_inner::{closure#0}") and bodies[p].argc == 2]
    calls = 0
    for p in cl:
        A = c.an(p, CORE_OBS)
        q = Q(A)
        for e in A.events():
            if leafname(e.path) in ("call1", "call") and "Py" in e.path:
                calls += 1
                t = nd(A.simp(e.args[-1]))
                ok = t[0] == "agg" and len(t[4]) == 2
                for i, x in enumerate(t[4] if ok else []):
                    for g, v in q.cases(x):
                        if not is_none(A, v):
                            ok &= is_call(A, root(A, reads(A, q, v)), f"Observer::stage{i + 1}", None)
                            continue
                        cs = [y for y in A.events() if leafname(y.path) == f"stage{i + 1}"]
                        ok &= bool(cs) and not sat(AND(g, A.guard(e.node), some(A, cs[0].ret)))
                c.ob(ok, "callback:args", "the callback gets the Stage-1 state and the Stage-2 state, in that order", e.where())
                c.ob(A.guard(e.node) == 1 or implies(1, A.guard(e.node)), "callback:always", "the callback is called each time the observer calls back", e.where())
    c.floor(calls, 1, "callback", "calls of the Python callback")
    for py, rs, vs in (("observers::PyObserverMode", "observers::ObserverMode", ("Stage1Only", "Stage2Only", "Both")),):
        f = c.prog().conversion(py, "globalsearch::" + rs)
        c.need(f, "mode", f"{py} is converted to {rs}")
        A = c.an(f)
        q = Q(A)
        same_variant(c, A, q, vs, "mode")
    solutions(c)


def field0(A, v):
    v = A.simp(v)
    n = nd(v)
    if n[0] == "agg" and n[2] == "Some":
        v = A.simp(n[4][0])
        n = nd(v)
    if n[0] == "call" and leafname(n[1]) == "new" and len(n[2]) == 1:
        v = A.simp(n[2][0])
    return v


def is_none(A, v):
    n = nd(A.simp(v))
    return n[0] == "agg" and n[2] == "None"


def reads(A, q, v):
    """the accessor's value without wrappers around it"""
    v = A.simp(v)
    while True:
        n = nd(v)
        if n[0] == "agg" and len(n[4]) == 1:
            v = A.simp(n[4][0])
        elif n[0] == "fld" and str(n[2]) in ("#Some", "0"):
            v = A.simp(n[1])
        else:
            return v


def is_call(A, v, name, of=None, args=None):
    n = nd(A.simp(v))
    if n[0] not in ("call", "at"):
        n2 = nd(root(A, v))
        n = n2
    if n[0] != "call" or not (n[1].endswith("::" + name) or n[1].endswith(name)):
        return False
    if of is not None:
        r = nd(A.simp(n[2][0]))
        if not (r[0] == "fld" and str(r[2]) == of):
            return False
    if args is not None:
        got = [A.simp(x) for x in n[2][1:]]
        if len(got) != len(args):
            return False
        for x, w in zip(got, args):
            if x != A.simp(w) and not converted(A, x, w):
                return False
    return True


def converted(A, x, w):
    """x is w through a variant-by-variant conversion"""
    q = Q(A)
    for g, v in q.cases(x):
        n = nd(A.simp(v))
        if n[0] != "agg" or not n[2]:
            return False
        if not any(a[0] == "is" and a[2] == n[2] and A.simp(a[1]) == A.simp(w) and implies(g, B.var(a)) for a in atoms(g)) and \
           any(a[0] == "is" and a[2] == n[2] and A.simp(a[1]) == A.simp(w) for a in atoms(g)):
            return False
    return True


def same_variant(c, A, q, vs, key):
    seen = set()
    for f, v, r in returns(A, q):
        n = nd(A.simp(v))
        ok = n[0] == "agg" and n[2] in vs
        c.ob(ok and implies(f, isvar(A, A.argterm(1), n[2], vs)), f"{key}:{n[2] if ok else shown(v, 3)}", "the mode is the one of the same name", "python/src/observers.rs")
        seen.add(n[2])
    c.ob(seen == set(vs), f"{key}:all", f"every mode can be chosen: {sorted(map(str, seen))}")


def solutions(c):
    bodies = c.prog().bodies
    where = "python/src/lib.rs"
    for cls, m, f in (("PyLocalSolution", "fun", "objective"), ("PyLocalSolution", "x", "point")):
        A = c.an(PYG + f"{cls}::{m}")
        vs = {A.simp(v) for g, v, r in returns(A, Q(A))}
        c.ob(vs == {A.simp(field(A.argterm(1), f))}, f"{cls}:{m}", f"{m}() is the {f}", where)
    A = c.an(PYG + "PySolutionSet::__len__")
    s = A.simp(field(A.argterm(1), "solutions"))
    vs = [A.simp(v) for g, v, r in returns(A, Q(A))]
    c.ob(vs and all(is_len(A, v, s) for v in vs), "PySolutionSet:len", "len() is the number of solutions", where)
    A = c.an(PYG + "PySolutionSet::is_empty")
    q = Q(A)
    s = A.simp(field(A.argterm(1), "solutions"))
    f = OR(*[AND(g, A.cond(v)) for g, v, r in returns(A, q)])
    ok = f not in (0, 1)
    for v in B.support(f) if ok else ():
        a = B.vars[v]
        ok &= a[0] == "eq" and len([x for x in a[1:3] if is_len(A, A.simp(x), s)]) == 1 and len([x for x in a[1:3] if nd(x)[0] == "c" and nd(x)[1] == 0]) == 1 and equiv(f, B.var(a)) \
            or a[0] == "b" and is_call(A, a[1], "is_empty", None) and A.simp(nd(A.simp(a[1]))[2][0]) == s and equiv(f, B.var(a))
    c.ob(ok, "PySolutionSet:is_empty", f"is_empty() exactly if there is no solution: {A.show_f(f)}", where)
    A = c.an(PYG + "PySolutionSet::__getitem__")
    q = Q(A)
    s, i = A.simp(field(A.argterm(1), "solutions")), A.simp(A.argterm(2))
    item = 0
    for g, v, r in returns(A, q):
        n = nd(A.simp(v))
        if n[2] == "Ok":
            item += 1
            x = nd(root(A, n[4][0]))
            ok = x[0] == "call" and leafname(x[1]) == "get" and A.simp(x[2][0]) == s and A.simp(x[2][1]) == i or x[0] in ("idx", "at") and A.simp(n[4][0]) == A.simp(mk(("idx", s, i)))
            c.ob(ok or shown(root(A, n[4][0]), 9) == "self.solutions[index]", "PySolutionSet:getitem", f"set[i] is the i-th solution: {shown(n[4][0], 4)}", where)
            inside = [a for a in atoms(g) if a[0] == "is" and a[2] == "Some" and A.simp(a[1]) == root(A, n[4][0])]
            lt = A.cond(binop("Lt", i, mk(("call", "len", (s,))), "bool"))
            c.ob(bool(inside) or equiv(g, lt), "PySolutionSet:getitem:range", "if there is one", where)
        else:
            c.ob(n[2] == "Err", "PySolutionSet:getitem:err", "an index out of range raises", where)
    c.ob(item > 0, "PySolutionSet:getitem:some", "set[i] returns solutions", where)
    A = c.an(PYG + "PySolutionSet::best_solution")
    q = Q(A)
    import r_scatter
    vs = [A.simp(v) for g, v, r in returns(A, q)]
    ok = bool(vs)
    for v in vs:
        n = nd(v)
        ok &= n[0] == "call" and leafname(n[1]) == "min_by" and A.simp(n[2][0]) == A.simp(field(A.argterm(1), "solutions")) and by_objective(c, A, n[2][1])
    c.ob(ok, "PySolutionSet:best", f"best_solution() is the solution of least objective: {[shown(v, 4) for v in vs]}", where)
    A = c.an(PYG + "PySolutionSetIterator::__next__")
    q = Q(A)
    me = A.argterm(1)
    inner, idx = A.simp(field(me, "inner")), A.simp(field(me, "index"))
    at = ("slf.inner[slf.index]", "slice::get(slf.inner, slf.index)", "slf.inner.get(slf.index)", "at(slf.inner, slf.index)")
    step = final(A, q, (("L", 1), "index"))
    inside = [a for g, v, r in returns(A, q) for a in atoms(g) if a[0] == "lt" and A.simp(a[1]) == idx and is_len(A, A.simp(a[2]), inner)]
    inside += [a for g, v, r in returns(A, q) for a in atoms(g) if a[0] == "is" and a[2] == "Some" and shown(A.simp(a[1]), 9) in at]
    c.need(inside, "iterator", "iteration asks whether there is another solution", where)
    more = B.var(inside[0])
    for g, v, r in returns(A, q):
        if inside[0][0] == "lt":
            g = AND(g, NOT(AND(more, OR(*[B.var(a) for a in atoms(g) if a[0] == "eq" and idx in [A.simp(x) for x in a[1:3]]]))))
        if is_none(A, v):
            c.ob(not sat(AND(g, more)), "iterator:end", "iteration ends after the last solution", where)
            continue
        y = shown(v, 12)
        c.ob(not sat(AND(g, NOT(more))) and any(x in y for x in at), "iterator:item", f"iteration yields the solution at its position: {shown(v, 5)}", where)
        nx = {A.simp(x) for h, x, r2 in step if B.AND(h, g) != 0}
        c.ob(plus1(A, nx, idx), "iterator:step", f"and moves on by one: {[shown(x, 4) for x in nx]}", where)
    A = c.an(PYG + "PySolutionSet::__iter__")
    its = [e for e in A.events() for x in e.args if nd(A.simp(x))[0] == "agg" and nd(A.simp(x))[1].endswith("PySolutionSetIterator")]
    c.need(its, "iterator", "iterating makes an iterator", where)
    for e in its:
        for x in e.args:
            n = nd(A.simp(x))
            if n[0] == "agg" and n[1].endswith("PySolutionSetIterator"):
                d = dict(zip([str(z) for z in n[3]], n[4]))
                c.ob(nd(A.simp(d["inner"]))[0] == "fld" and str(nd(A.simp(d["inner"]))[2]) == "solutions" and nd(A.simp(d["index"]))[1] == 0, "iterator:start", "over all solutions from the first", where)


def plus1(A, nx, idx):
    ok = bool(nx)
    for x in nx:
        n = nd(x)
        ok &= n[0] == "bin" and n[1].startswith("Add") and any(A.simp(a) == idx and nd(b)[0] == "c" and nd(b)[1] == 1 for a, b in ((n[2], n[3]), (n[3], n[2])))
    return ok


def by_objective(c, A, cl):
    n = nd(A.simp(cl))
    if n[0] != "agg" or "{closure" not in str(n[1]):
        return False
    S = c.an(n[1])
    q = Q(S)
    vs = [S.simp(v) for g, v, r in returns(S, q)]
    ok = bool(vs)
    for v in vs:
        m = nd(v)
        ok &= m[0] == "call" and leafname(m[1]) in ("total_cmp", "partial_cmp", "cmp") and [S.simp(x) for x in m[2]] == [S.simp(field(S.argterm(2), "objective")), S.simp(field(S.argterm(3), "objective"))]
    return ok


@rule("C27", ("python",), python=True)
def names(c):
    """each class is published under its own name"""
    n = 0
    for f in (PYG + "builders::init_module", PYG + "observers::init_module"):
        A = c.an(f)
        q = Q(A)
        for e in q.calls("setattr"):
            al = nd(A.simp(e.args[1]))
            for g, v in q.cases(e.args[2]):
                x = nd(root(A, v))
                if al[0] != "c" or x[0] != "call" or leafname(x[1]) != "getattr":
                    continue
                n += 1
                k = nd(A.simp(x[2][1]))
                c.ob(canon_name(str(al[1]).strip("\"")) == canon_name(str(k[1]).strip("\"")), f"alias:{al[1]}", f"{al[1]} is the class {k[1]}", e.where())
    c.floor(n, 12, "aliases", "published names")


# ---------------------------------------------------------------- C28
PROB = PYG + "<PyProblem as globalsearch::problem::Problem>::"
PW = "python/src/lib.rs"


def callback(A, q, name, optional):
    """the calls of Python made for a callback: (call events of that callback, the other calls into Python)"""
    me = A.simp(field(A.argterm(1), name))
    f = A.simp(payload(me)) if optional else me
    mine, foreign = [], []
    for e in A.events():
        if "pyo3" in e.path and leafname(e.path) in ("call1", "call0", "call", "call_method1", "call_method") and A.guard(e.node) != 0:
            (mine if A.simp(e.args[0]) == f else foreign).append(e)
    return me, mine, foreign


def extracted(A, q, v, mine):
    """v is what was extracted from the result of one of the calls"""
    n = nd(A.simp(v))
    if n[0] != "fld":
        return None
    x = nd(root(A, v))
    if x[0] != "call" or leafname(x[1]) != "extract":
        return None
    ys = {root(A, y) for g, y in q.cases(x[2][0])}
    return root(A, v) if ys and ys <= {A.simp(e.ret) for e in mine} else None


def r_isok(A, t):
    return B.var(("is", A.simp(t), "Ok"))


@rule("C28", ("python",), python=True)
def callbacks(c):
    """objective, gradient and Hessian are what the Python callback returned for that point, and any failure of it is an error"""
    n = 0
    for name, opt, ni in (("objective", False, None), ("gradient", True, "GradientNotImplemented"), ("hessian", True, "HessianNotImplemented")):
        A = c.an(PROB + name)
        q = Q(A)
        where = f"{PW} {name}"
        me, mine, foreign = callback(A, q, name, opt)
        c.ob(not foreign, f"{name}:foreign", f"{name} calls no other Python function: {[shown(e.args[0], 3) for e in foreign]}", where)
        c.need(mine, f"{name}:call", f"{name} calls the Python function {name}", where)
        steps = set()
        for e in mine:
            steps.add(A.simp(e.ret))
            a = nd(A.simp(e.args[-1]))
            ok = a[0] == "agg" and len(a[4]) == 1
            for g, v in q.cases(a[4][0]) if ok else ():
                if B.AND(g, A.guard(e.node)) == 0:
                    continue
                x = nd(root(A, v))
                same_x = x[0] == "call" and leafname(x[1]) == "into_pyobject" and A.simp(q.copy_of(x[2][0])) == A.simp(A.argterm(2)) or root(A, q.copy_of(v)) == A.simp(A.argterm(2))
                ok &= same_x
                if x[0] == "call" and leafname(x[1]) == "into_pyobject":
                    steps.add(root(A, v))
            c.ob(ok, f"{name}:point", f"{name} passes the point, and nothing else: {shown(e.args[-1], 5)}", e.where())
        oks, errs = [], []
        for f, v, r in returns(A, q):
            w = nd(A.simp(v))
            if w[0] == "agg" and w[2] == "Ok":
                oks.append((f, w[4][0]))
            elif w[0] == "agg" and w[2] == "Err":
                errs.append((f, w[4][0]))
            else:
                oks.append((f, payload(v, "Ok")))
                errs.append((AND(f, NOT(r_isok(A, v))), None))
        shapes = []
        for f, v in oks:
            n += 1
            v = A.simp(q.copy_of(v))
            src = v
            if name == "hessian":
                m = root(A, v)
                k = nd(m)
                es = [e for e in q.calls("from_shape_vec") if A.simp(e.ret) == m]
                c.ob(len(es) == 1, "hessian:matrix", f"the Hessian is the matrix of the rows returned: {shown(v, 4)}", where)
                if len(es) != 1:
                    continue
                e = es[0]
                ls = [A.simp(x) for g, x in q.cases(nd(A.simp(e.args[0]))[4][0])]
                src = A.simp(nd(ls[0])[2][0]) if ls and nd(ls[0])[0] == "call" else v
                c.ob(matrix_of(A, q, e, src), "hessian:rows", "the Hessian has one row per row returned, and rows of a wrong length are an error", e.where())
                sq = nd(A.simp(e.args[0]))[4]
                gd = A.guard(e.node)
                same_ = {A.simp(x) for g, x in q.cases(sq[0]) if sat(B.AND(g, gd))} == {A.simp(x) for g, x in q.cases(sq[1]) if sat(B.AND(g, gd))}
                c.ob(same_ or implies(gd, A.cond(binop("Eq", sq[0], sq[1], "usize"))), "hessian:square", "the Hessian is square", e.where())
                shapes.append(A.simp(e.ret))
                shapes += [a for a in atoms(A.guard(e.node)) if a[0] == "exists"]
            elif name == "gradient":
                k = nd(v)
                if k[0] == "call" and leafname(k[1]) in ("from", "from_vec", "from_iter", "from_shape_vec", "into"):
                    src = A.simp(q.copy_of(k[2][-1]))
            x = extracted(A, q, src, mine)
            c.ob(x is not None, f"{name}:value", f"{name} is what its Python function returned: {shown(v, 5)}", where)
            if x is None:
                continue
            steps.add(x)
            good = AND(*[r_isok(A, t) for t in steps], *([some(A, me)] if opt else []))
            c.ob(not sat(AND(f, NOT(good))), f"{name}:fails", f"a failure of the callback, of its argument or of its result is an error, never a value: {A.show_f(f)[:200]}", where)
        c.ob(bool(oks), f"{name}:ok", f"{name} can succeed", where)
        good = AND(*[r_isok(A, t) for t in steps], *([some(A, me)] if opt else []), *[r_isok(A, x) for x in shapes if isinstance(x, int)], *[NOT(B.var(x)) for x in shapes if not isinstance(x, int)])
        for f, v in errs:
            n += 1
            c.ob(not sat(AND(f, good)), f"{name}:spurious", f"an error only if something failed: {A.show_f(f)[:200]}", where)
            if opt and v is not None:
                k = nd(A.simp(v))
                none = AND(f, NOT(some(A, me)))
                if sat(none):
                    c.ob(k[0] == "agg" and k[2] == ni and not sat(AND(f, some(A, me))), f"{name}:missing", f"without a Python {name} the error is {ni}", where)
                else:
                    c.ob(not (k[0] == "agg" and k[2] == ni), f"{name}:failed", f"a failing {name} is not reported as a missing one", where)
    c.floor(n, 10, "callbacks", "results of callbacks")


@rule("C28", ("python",), python=True)
def bounds_cb(c):
    """variable bounds are the rows the Python callback returned; anything else stops the run"""
    A = c.an(PROB + "variable_bounds")
    q = Q(A)
    where = f"{PW} variable_bounds"
    me, mine, foreign = callback(A, q, "variable_bounds", False)
    c.ob(not foreign and mine, "bounds:call", "variable_bounds calls its own Python function", where)
    for f, v, r in returns(A, q):
        m = root(A, q.copy_of(v))
        es = [e for e in q.calls("from_shape_vec") if A.simp(e.ret) == m]
        c.ob(len(es) == 1, "bounds:matrix", f"the bounds are the matrix of the rows returned: {shown(v, 4)}", where)
        for e in es:
            ls = [A.simp(x) for g, x in q.cases(nd(A.simp(e.args[0]))[4][0])]
            src = A.simp(nd(ls[0])[2][0]) if ls and nd(ls[0])[0] == "call" else v
            c.ob(matrix_of(A, q, e, src), "bounds:rows", "one row per variable, and rows of different lengths are refused", e.where())
            x = extracted(A, q, src, mine)
            c.ob(x is not None and implies(f, AND(r_isok(A, x), *[r_isok(A, A.simp(y.ret)) for y in mine])), "bounds:value", "the rows are those returned, and a failing callback yields no bounds", where)


@rule("C28", ("python",), python=True)
def constraint_cb(c):
    """every constraint of a problem is evaluated by its own Python function, and a failing one never counts as satisfied"""
    bodies = c.prog().bodies
    A = c.an(PROB + "constraints", ("get_constraint_functions",))
    q = Q(A)
    where = f"{PW} constraints"
    me = A.simp(field(A.argterm(1), "constraints"))
    pid = A.simp(field(A.argterm(1), "problem_id"))
    for f, v, r in returns(A, q):
        if not sat(AND(f, some(A, me))):
            x = nd(A.simp(v))
            c.ob(x[0] == "call" and leafname(x[1]) in ("new", "with_capacity"), "constraints:none", "no Python constraints, no constraints", where)
    ins = [e for e in q.calls("insert") if "HashMap" in e.path]
    gets = list(q.calls("get_constraint_functions"))
    c.need(len(ins) == 1 and len(gets) == 1, "constraints:register", "the constraints are registered and handed out", where)
    e, g = ins[0], gets[0]
    c.ob(A.simp(e.args[1]) == pid, "constraints:id", "they are registered under the problem's own number", e.where())
    lst = A.simp(e.args[2])
    k = nd(A.simp(g.args[0]))
    c.ob(k[0] == "call" and leafname(k[1]) == "len" and A.simp(k[2][0]) == lst, "constraints:count", "as many functions are handed out as constraints are registered", g.where())
    c.ob(implies(A.guard(g.node), A.guard(e.node)) and e.node in ancestors_(A, g.node), "constraints:order", "and only after they are registered", g.where())
    src = set()
    for h, v in q.cases(lst):
        if B.AND(h, A.guard(e.node)) == 0:
            continue
        y = one_list(A, q, v, A.simp(payload(me)))
        src.add(y)
        c.ob(y is not None, "constraints:list", f"the constraints are the items of the list or tuple, or the one function given: {shown(v, 4)}", where)
    c.ob({"list", "tuple", "single"} <= src, "constraints:kinds", f"a list, a tuple and a single function are all accepted: {sorted(map(str, src))}", where)
    for f, v, r in returns(A, q):
        if sat(AND(f, some(A, me))):
            c.ob(A.simp(v) == A.simp(g.ret), "constraints:handed", "what is returned are those functions", where)
    # the number of a problem is its own
    A = c.an(PYG + "PyProblem::new")
    q = Q(A)
    for f, v, r in returns(A, q):
        n = nd(A.simp(v))
        d = dict(zip([str(z) for z in n[3]], n[4]))
        x = nd(A.simp(d["problem_id"]))
        c.ob(x[0] == "call" and leafname(x[1]) == "fetch_add" and nd(x[2][1])[0] == "c" and int(nd(x[2][1])[1]) != 0, "constraints:own", "each problem gets a number no other problem has", f"{PW} PyProblem::new")
    A = c.an(PYG + "<PyProblem as std::clone::Clone>::clone")
    q = Q(A)
    for f, v, r in returns(A, q):
        n = nd(A.simp(v))
        for z, x in zip(n[3], n[4]):
            w = A.simp(field(A.argterm(1), str(z)))
            for g2, y in q.cases(x):
                y = A.simp(y)
                m = nd(y)
                ok = y == w or m[0] == "call" and leafname(m[1]) in ("clone_ref", "clone") and A.simp(m[2][0]) == w
                if str(z) == "problem_id":    # a number of its own is as good
                    ok |= m[0] == "call" and leafname(m[1]) == "fetch_add"
                if m[0] == "agg" and m[2] == "Some":
                    t = nd(A.simp(m[4][0]))
                    ok = t[0] == "call" and leafname(t[1]) in ("clone_ref", "clone") and A.simp(t[2][0]) == A.simp(payload(w))
                elif m[0] == "agg" and m[2] == "None":
                    ok = not sat(AND(g2, some(A, w)))
                c.ob(ok, f"clone:{z}", f"a clone of a problem has the same {z}", f"{PW} Clone")
    handed(c)
    evaluated(c)


def ancestors_(A, n):
    seen, todo = set(), [n]
    while todo:
        x = todo.pop()
        for p in A.flow.pred[x]:
            if p not in seen:
                seen.add(p)
                todo.append(p)
    return seen


def one_list(A, q, v, src):
    n = nd(A.simp(v))
    if n[0] == "call" and "into_vec" in n[1]:
        n = nd(A.simp(n[2][0]))
    if n[0] == "agg" and str(n[1]) == "array" or n[0] == "agg" and len(n[4]) == 1:
        x = nd(A.simp(n[4][0]))
        return "single" if x[0] == "call" and leafname(x[1]) in ("clone_ref", "clone") and A.simp(x[2][0]) == src else None
    m = q.mapped(v)
    if not m:
        return None
    dom, item = m
    x = nd(A.simp(item))
    if x[0] == "call" and leafname(x[1]) in ("unbind", "into", "clone"):
        x = nd(A.simp(x[2][0]))
    if x[0] != "elem":
        return None
    d = nd(A.simp(x[1]))
    if d[0] == "call" and leafname(d[1]) in ("iter", "into_iter"):
        p = nd(root(A, d[2][0]))
        if p[0] == "call" and p[1].rsplit("::", 1)[-1].startswith(("cast", "downcast")) and A.simp(p[2][0]) == src:
            return "list" if "PyList" in str(p[3]) else "tuple" if "PyTuple" in str(p[3]) else None
    return None


def fn_index(p):
    import re
    m = re.match(r"^" + PYG + r"(.*?)(\d+)$", p)
    return int(m.group(2)) if m else None


def handed(c):
    """get_constraint_functions(n) is the functions 0..n, in order"""
    A = c.an(PYG + "get_constraint_functions")
    q = Q(A)
    where = f"{PW} get_constraint_functions"
    nt = A.simp(A.argterm(1))
    pushes = [e for e in q.calls("push") if A.guard(e.node) != 0]
    k = 0
    order = {n: i for i, n in enumerate(A.flow.order)}
    pushes.sort(key=lambda e: order[e.node])
    guards = []
    for e in pushes:
        x = nd(A.simp(e.args[1]))
        nm = str(x[1]) if x[0] in ("fnitem", "c") else str(x)
        i = fn_index(nm)
        gt = A.cond(binop("Lt", const(k, "usize"), nt, "usize"))
        here = [A.edge_cond(u, e.node) for u in A.flow.pred[e.node]]
        ok = i == k and all(implies(h, gt) for h in here) if here else False
        if not ok:
            ok = i == k and implies(A.guard(e.node), gt)
        c.ob(ok, "handed:push" if ok else f"handed:push:{k}", f"the {k}-th function handed out is the one of constraint {k}: {nm}", where)
        k += 1
    c.floor(k, 1, "handed", "constraint functions handed out")
    big = A.cond(binop("Lt", const(k, "usize"), nt, "usize"))
    outs = [A.guard(r) for r in A.exits()]
    c.ob(all(not sat(AND(g, big)) for g in outs), "handed:max", f"more than {k} constraints are refused, not dropped", where)
    c.handed_n = k


def evaluated(c):
    """the function of constraint k is constraint k of the problem that handed it out"""
    bodies = c.prog().bodies
    E = c.an(PYG + "evaluate_constraints_for_id")
    q = Q(E)
    where = f"{PW} evaluate_constraints_for_id"
    gets = [e for e in q.calls("get") if "HashMap" in e.path]
    c.need(len(gets) == 1, "evaluate:lookup", "the constraints are looked up", where)
    g0 = gets[0]
    c.ob(E.simp(g0.args[1]) == E.simp(E.argterm(1)), "evaluate:id", "by the number of the problem", g0.where())
    here = E.simp(payload(g0.ret))
    n = 0
    for f, v, r in returns(E, q):
        if not sat(AND(f, some(E, g0.ret))):
            continue
        n += 1
        m = q.mapped(v)
        ok = bool(m)
        if ok:
            x = nd(root(E, m[1]))
            ok = x[0] == "call" and leafname(x[1]) == "extract" and E.simp(m[0]) == here
            y = nd(root(E, x[2][0])) if ok else None
            ok = ok and y[0] == "call" and leafname(y[1]) == "call1" and nd(E.simp(y[2][0]))[0] == "elem" and E.simp(nd(E.simp(y[2][0]))[1]) == here
            a = nd(E.simp(y[2][-1])) if ok else None
            ok = ok and a[0] == "agg" and len(a[4]) == 1 and E.simp(q.copy_of(a[4][0])) == E.simp(E.argterm(2))
        c.ob(ok, "evaluate:all", f"each registered constraint is called with the point, in order, and its value is what it returned: {shown(v, 3)}", where)
        for e in E.events():
            if ok and leafname(e.path) == "push" and E.guard(e.node) != 0:
                bad = AND(E.guard(e.node), NOT(AND(r_isok(E, root(E, m[1])), r_isok(E, root(E, nd(root(E, m[1]))[2][0])))))
                c.ob(not sat(bad), "evaluate:fails", "a constraint that fails stops the evaluation; it never has a value", e.where())
    c.floor(n, 1, "evaluate", "evaluations of registered constraints")
    fns = sorted({fn_index(p): p for p in bodies if p.startswith(PYG + "constraint_fn_") and fn_index(p) is not None}.items())
    c.floor(len(fns), max(1, getattr(c, "handed_n", 1)), "functions", "constraint functions")
    thread = missing = 0
    deep = {0, 1, len(fns) // 2, len(fns) - 1}
    for i, p in fns:
        A = c.an(p, ("evaluate_constraints_for_id",))
        q = Q(A)
        es = list(q.calls("evaluate_constraints_for_id"))
        ok = len(es) == 1 and A.simp(q.copy_of(es[0].args[1])) == A.simp(A.argterm(1))
        rest = []
        for f, v, r in returns(A, q):
            x = nd(root(A, v))
            if x[0] == "call" and leafname(x[1]) == "get":
                ok &= A.simp(x[2][0]) == A.simp(es[0].ret) and nd(x[2][1])[0] == "c" and int(nd(x[2][1])[1]) == i
            elif x[0] in ("at", "idx"):
                ok &= A.simp(x[1]) == A.simp(es[0].ret) and nd(x[2])[0] == "c" and int(nd(x[2])[1]) == i
            else:
                rest.append((f, v))
        c.ob(ok, "function" if ok else f"function:{i}", f"constraint function {i} is constraint {i}, at the point given", f"{PW} constraint_fn_{i}")
        missing += bool(rest)
        if ok:
            who = nd(A.simp(es[0].args[0]))
            thread += who[0] == "call" and "LocalKey" in who[1]
    c.ob(not thread, "constraint:thread", f"which problem a constraint function belongs to does not depend on the thread it is called on ({thread} functions)", f"{PW} constraint_fn_N")
    c.ob(not missing, "constraint:missing", f"a constraint that is not registered has no value ({missing} functions)", f"{PW} constraint_fn_N")
