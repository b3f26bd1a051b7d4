"""Constructors accept exactly the documented domain."""
import itertools
import math
from lib import *
from runlib import *
import grid

VALID = {"population_size": lambda v: v["population_size"] >= 3, "iterations": lambda v: v["iterations"] <= v["population_size"],
         "threshold_factor": lambda v: v["threshold_factor"] > 0.0, "distance_factor": lambda v: v["distance_factor"] >= 0.0}
NUMS = {"population_size": "i", "iterations": "i", "wait_cycle": "i", "seed": "i", "threshold_factor": "f", "distance_factor": "f"}


def setting(A, i, t):
    """t = params.<name>"""
    n = nd(t)
    return n[2] if n[0] == "fld" and n[1] == A.argterm(i) and n[2] in NUMS else None


def rejects(c, A, i, names, errs, where, tag):
    """the results of A by every order type of the settings: Ok exactly when each of names is valid, and an error that names an invalid setting with its value"""
    q = Q(A)
    rs = [(f, A.simp(v)) for f, v, r in returns(A, q)]
    fs = [f for f, _ in rs]
    used = set(names)
    for f in fs:
        for a in atoms(f):
            for x in a[1:]:
                if type(x) is int and a[0] in ("lt", "eq", "nan", "b"):
                    used |= {setting(A, i, s) for s in subterms(x)} - {None}
    used = sorted(used)
    cs = grid.constants(fs)
    doms = [grid.ints(cs) if NUMS[u] == "i" else grid.floats(cs) for u in used]
    # settings that no condition mentions together with others only need their own values; the product is small enough as it is
    ok_accept = ok_reject = ok_err = True
    bad = ""
    cells = 0
    fast = compile_all(A, i, fs)
    for vals in itertools.product(*doms):
        v = dict(zip(used, vals))
        cells += 1
        want = [u for u in names if not VALID[u](v)]
        hit = [k for k, f in enumerate(fast) if f(v)]
        for k in hit:
            t = nd(rs[k][1])
            if t[0] != "agg" or t[2] not in ("Ok", "Err"):
                raise Broken(f"{where}: result {shown(rs[k][1], 3)}")
            if t[2] == "Ok" and want and ok_reject:
                ok_reject, bad = False, str({u: v[u] for u in want})
            if t[2] == "Err" and not want and ok_accept:
                ok_accept, bad = False, str(v)
            if t[2] == "Err" and want and ok_err:
                inner = error_of(A, rs[k][1])
                if inner is None or inner[0] not in errs or not any(errs[inner[0]][0] == u for u in want) or [setting(A, i, x) for x in inner[1]] != errs[inner[0]][1]:
                    ok_err, bad = False, f"{inner and inner[0]} for {({u: v[u] for u in want})}"
        if len(hit) != 1:
            raise Broken(f"{where}: {len(hit)} results for {v}")
    c.ob(ok_reject, f"{tag}:rejected", f"a value outside the documented domain is rejected {bad}", where)
    c.ob(ok_accept, f"{tag}:accepted", f"a value inside the documented domain is accepted {bad}", where)
    c.ob(ok_err, f"{tag}:error", f"the error names the invalid setting and carries its value {bad}", where)
    c.floor(cells, 10, f"{tag}:cells", "order types")


def compile_all(A, i, fs):
    """formulas as functions of the settings' values"""
    return [(lambda v, f=f: grid.holds(f, lambda t: v.get(setting(A, i, t)) if setting(A, i, t) else None)) for f in fs]


def error_of(A, v):
    """(variant, payload terms) of the innermost error"""
    t = payload(v, "Err")
    while True:
        n = nd(A.simp(t))
        if n[0] != "agg":
            return None
        if len(n[4]) == 1 and nd(A.simp(n[4][0]))[0] == "agg":
            t = n[4][0]
            continue
        return n[2], [A.simp(x) for x in n[4]]


ERR = {"InvalidPopulationSize": ("population_size", ["population_size"]), "InvalidIterations": ("iterations", ["iterations", "population_size"]),
       "InvalidThresholdFactor": ("threshold_factor", ["threshold_factor"]), "NegativeDistanceFactor": ("distance_factor", ["distance_factor"])}


@rule("C25", ("all", "nodefault"))
def parameters(c):
    """OQNLP::new and DistanceFilter::new return Ok exactly for settings inside the documented domain, and otherwise the error of an invalid setting"""
    rejects(c, c.an("OQNLP::<P>::new"), 2, ["population_size", "iterations", "threshold_factor", "distance_factor"], ERR, "src/oqnlp.rs OQNLP::new", "OQNLP")
    rejects(c, c.an("DistanceFilter::new"), 1, ["distance_factor"], ERR, "src/filters.rs DistanceFilter::new", "DistanceFilter")


@rule("C25", ("all", "nodefault"))
def bounds(c):
    """ScatterSearch::new fails exactly if some variable's bounds are not numbers, not in order, or infinitely far apart, and names that variable"""
    A = c.an("ScatterSearch::<P>::new")
    q = Q(A)
    where = "src/scatter_search.rs ScatterSearch::new"
    k = 0
    for f, v, r in returns(A, q):
        n = nd(A.simp(v))
        c.need(n[0] == "agg" and n[2] in ("Ok", "Err"), where, f"result {shown(v, 3)}")
        ex = [a for a in atoms(f) if a[0] == "exists"]
        bad = [a for a in ex if bad_bounds(a)]
        k += 1
        if n[2] == "Ok":
            c.ob(any(implies(f, NOT(B.var(a))) for a in bad), "bounds:rejected", "Ok only if every variable's bounds are numbers, in order and a finite distance apart", where)
            c.ob(any(implies(NOT(B.var(a)), f) for a in bad), "bounds:accepted", "such bounds are always accepted", where)
        else:
            inner = error_of(A, A.simp(v))
            ok = inner is not None and inner[0] == "InvalidBounds" and len(inner[1]) == 3
            if ok:
                e = dict(zip([str(x) for x in nd(payload(A.simp(v), "Err"))[3]], inner[1]))
                lo, hi = bound_of(e["lower"], is_bounds), bound_of(e["upper"], is_bounds)
                ok = lo is not None and hi is not None and lo[0] == 0 and hi[0] == 1 and lo[1] == hi[1] == rowpos(e["dimension"])
            c.ob(ok, "bounds:error", f"the error names the variable and its bounds: {shown(v, 5)}", where)
    c.floor(k, 2, "bounds", "results")


def bad_bounds(a):
    """exists i: not lower[i] < upper[i], or upper[i] - lower[i] not finite"""
    rows = set()

    def cell(lo, hi):
        def leaf(t):
            b = bound_of(t, is_bounds)
            if b is None or b[0] not in (0, 1):
                return None
            rows.add(b[1])
            return hi if b[0] else lo
        return leaf
    for d in a[1]:
        if any(nd(x)[0] == "agg" and nd(x)[1] in ("models::Take", "models::Skip", "models::StepBy", "models::Filter") for x in subterms(d)):
            return False
        if any(is_range(x) and not all_rows(x) for x in subterms(d)):
            return False
    vals = grid.floats(grid.constants([a[2]]))
    try:
        for lo, hi in itertools.product(vals, vals):
            want = not lo < hi or not math.isfinite(hi - lo)
            if grid.holds(a[2], cell(lo, hi)) != want:
                return False
    except grid.Opaque:
        return False
    return len(rows) == 1


def all_rows(x):
    """0..the number of variables"""
    n = nd(x)
    ends = dict(zip([str(y) for y in n[3]], n[4]))
    lo, hi = ends.get("start"), ends.get("end")
    if n[1].rsplit("::", 1)[-1] != "Range" or lo is None or hi is None:
        return False
    h = nd(hi)
    return nd(lo)[0] == "c" and nd(lo)[1] == 0 and h[0] == "call" and leafname(h[1]) in ("len", "nrows", "dim", "len_of") or nd(lo)[0] == "c" and nd(lo)[1] == 0 and h[0] == "fld" and call_of(h[1], "dim") is not None
