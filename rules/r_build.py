"""Builders, setters and defaults: every value goes to the setting it names."""
import math
from lib import *
from runlib import *

EPS = 2.220446049250313e-16
SQ, INF = math.sqrt(EPS), math.inf
BOUNDS = [SQ, INF]
MT = {"c1": 1e-4, "c2": 0.9, "width_tolerance": 1e-10, "bounds": BOUNDS}
LS = {"method": ("MoreThuente", MT)}
# documented defaults of the built configuration
DOC = {
    "LBFGS": {"max_iter": 300, "tolerance_grad": SQ, "tolerance_cost": EPS, "history_size": 10, "l1_coefficient": None, "line_search_params": LS},
    "NelderMead": {"simplex_delta": 0.1, "sd_tolerance": EPS, "max_iter": 300, "alpha": 1.0, "gamma": 2.0, "rho": 0.5, "sigma": 0.5},
    "SteepestDescent": {"max_iter": 300, "line_search_params": LS},
    "TrustRegion": {"trust_region_radius_method": ("Cauchy", {}), "radius": 1.0, "max_radius": 100.0, "eta": 0.125, "max_iter": 300},
    "NewtonCG": {"max_iter": 300, "curvature_threshold": 0.0, "tolerance": EPS, "line_search_params": LS},
    "COBYLA": {"max_iter": 300, "initial_step_size": 0.5, "ftol_rel": 1e-6, "ftol_abs": 1e-8, "xtol_rel": 0.0, "xtol_abs": []},
    "MoreThuente": MT,
    "HagerZhang": {"delta": 0.1, "sigma": 0.9, "epsilon": 1e-6, "theta": 0.5, "gamma": 0.66, "eta": 0.01, "bounds": [EPS, 1e5]},
}
PARAMS = {"iterations": 300, "population_size": 1000, "wait_cycle": 15, "threshold_factor": 0.2, "distance_factor": 0.75, "local_solver_type": ("COBYLA", {}),
          "local_solver_config": ("COBYLA", DOC["COBYLA"]), "seed": 0}
CKPT = {"checkpoint_dir": "./checkpoints", "checkpoint_name": "oqnlp_checkpoint", "save_frequency": 25, "keep_all": False, "auto_resume": True}
SETTER = {("TrustRegion", "method"): "trust_region_radius_method"}


class Unknown(Exception):
    pass


def concrete(A, t, depth=0):
    """a closed term as a python value"""
    t = A.simp(t)
    n = nd(t)
    if depth > 12:
        raise Unknown(shown(t, 3))
    if n[0] == "c":
        v = n[1]
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return bool(v) if len(n) > 2 and n[2] == "bool" else v
        s = str(v)
        if s.startswith("item:") or "::" in s and "\"" not in s:
            for k, w in (("EPSILON", EPS), ("NEG_INFINITY", -INF), ("INFINITY", INF), ("NAN", math.nan)):
                if s.endswith("::" + k):
                    return w
            raise Unknown(s)
        if s.startswith("\"") or s.startswith("const \""):
            return s.split("\"", 1)[1].rsplit("\"", 1)[0]
        if s in ("true", "false"):
            return s == "true"
        try:
            return float(s)
        except ValueError:
            raise Unknown(s)
    if n[0] in ("item", "fn"):
        s = str(n[1])
        for k, v in (("EPSILON", EPS), ("INFINITY", INF), ("MAX", None)):
            if s.endswith(k) and v is not None:
                return v
        raise Unknown(s)
    if n[0] == "call":
        nm = leafname(n[1])
        if nm == "sqrt" and len(n[2]) == 1:
            return math.sqrt(concrete(A, n[2][0], depth + 1))
        if nm in ("from", "into", "to_string", "to_owned", "clone", "from_vec", "to_vec", "into_vec", "box_new", "arr1", "aview1") and len(n[2]) == 1:
            return concrete(A, n[2][0], depth + 1)
        if nm in ("default", "new") and not n[2] and ("Vec" in n[1] or n[1].endswith("Default::default")):
            return []
        raise Unknown(shown(t, 3))
    if n[0] == "agg":
        if n[2] == "None":
            return None
        if n[2] == "Some":
            return concrete(A, n[4][0], depth + 1)
        if n[1] in ("array", "vec") or "array" == str(n[1]):
            return [concrete(A, x, depth + 1) for x in n[4]]
        d = {}
        adt = A.inl.prog.adts.get(n[1]) if hasattr(A.inl, "prog") else None
        for f, x in zip(n[3], n[4]):
            d[str(f)] = concrete(A, x, depth + 1)
        return (n[2], d) if n[2] and n[2] != leafname(n[1]) else d
    if n[0] == "bin" and n[1] in ("Div", "Mul", "Sub", "Add"):
        a, b = concrete(A, n[2], depth + 1), concrete(A, n[3], depth + 1)
        return {"Div": lambda: a / b, "Mul": lambda: a * b, "Sub": lambda: a - b, "Add": lambda: a + b}[n[1]]()
    raise Unknown(shown(t, 3))


def same(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return float(a) == float(b) or (math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-15 * max(abs(a), abs(b)))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def only(A, q):
    """the single value returned"""
    vs = {A.simp(v) for f, v, r in returns(A, q)}
    return vs.pop() if len(vs) == 1 else None


def config_of(v):
    """variant fields of a built configuration: (variant, {setting: term})"""
    n = nd(v)
    if n[0] == "agg" and n[2]:
        if n[2] == "LineSearchParams" and len(n[4]) == 1:
            return config_of(n[4][0])
        return n[2], dict(zip([str(f) for f in n[3]], n[4]))
    return None, {}


class Builder:
    def __init__(self, c, adt):
        self.c, self.adt = c, adt
        self.name = adt.rsplit("::", 1)[-1]
        self.kind = self.name[:-len("Builder")]
        self.fields = [f["name"] for f in c.prog().adts[adt]["vars"][0]["fields"]]
        self.where = f"src/local_solver/builders.rs {self.name}"
        A = self.A = c.an(adt + "::build")
        self.q = q = Q(A)
        v = only(A, q)
        self.variant, self.cfg = config_of(v) if v is not None else (None, {})
        self.map = {}           # setting -> (builder field, optional?, default when unset)
        me = A.argterm(1)
        for s, t in self.cfg.items():
            src, opt, dflt, odd = set(), False, None, False
            for g, x in q.cases(t):
                x = A.simp(x)
                for f in self.fields:
                    if x == A.simp(field(me, f)):
                        src.add(f)
                        break
                    if x == A.simp(payload(field(me, f))):
                        src.add(f)
                        opt = True
                        odd |= not implies(g, some(A, field(me, f)))
                        break
                else:
                    try:
                        dflt = (concrete(A, x),)
                    except Unknown:
                        odd = True
            if len(src) == 1 and not odd:
                f = next(iter(src))
                if dflt is not None:
                    for g, x in q.cases(t):
                        if A.simp(x) != A.simp(payload(field(me, f))) and not implies(g, NOT(some(A, field(me, f)))):
                            odd = True
                if not odd:
                    self.map[s] = (f, opt, dflt)

    def value(self, s, t, S):
        """what setting s is after the builder field holds t"""
        f, opt, dflt = self.map[s]
        if opt:
            n = nd(t)
            if n[0] == "agg" and n[2] == "Some":
                return ("t", S.simp(n[4][0]))
            if n[0] == "agg" and n[2] == "None":
                return ("v", dflt[0]) if dflt else None
            return None
        return ("t", t)


def builders(c):
    return [Builder(c, p) for p in sorted(c.prog().adts) if p.endswith("Builder") and "::builders::" in p]


@rule("C20", ("all", "nodefault"))
def building(c):
    """build() passes every setting of the builder to the field it names; each setter changes one setting, to the given value; new() stores each
    argument under its name; the defaults are the documented ones"""
    bs = builders(c)
    c.floor(len(bs), 8 if c.cfg == "all" else 1, "builders", "configuration builders")
    for b in bs:
        key = b.kind
        c.ob(b.variant == b.kind, f"{key}:variant", f"{b.name}::build builds the {b.kind} configuration: {b.variant}", b.where)
        for s in b.cfg:
            c.ob(s in b.map, f"{key}:build:{s}", f"build() passes the builder's value of {s} on unchanged: {shown(b.cfg[s], 4)}", b.where)
        used = [f for f, _, _ in b.map.values()]
        c.ob(len(set(used)) == len(used), f"{key}:build:distinct", f"each setting has its own value: {sorted(used)}", b.where)
        back = {f: s for s, (f, _, _) in b.map.items()}
        seen = {}
        for p in sorted(c.prog().bodies):
            if not p.startswith(b.adt + "::") or "{" in p[len(b.adt):] or "#" in p:
                continue
            m = p.rsplit("::", 1)[-1]
            if m in ("build", "new"):
                continue
            S = c.an(p)
            q = Q(S)
            if S.inl.entry_body.argc != 2:
                continue
            for g, v, r in returns(S, q):
                me = S.argterm(1)
                changed = [f for f in b.fields if S.simp(project(v, f)) != S.simp(field(me, f))]
                ok = len(changed) == 1
                want = SETTER.get((b.kind, m), m)
                if ok:
                    f = changed[0]
                    s = back.get(f)
                    t = S.simp(project(v, f))
                    val = b.value(s, t, S) if s else None
                    c.ob(s == want, f"{key}:{m}", f"{b.name}::{m} sets {s}", b.where)
                    c.ob(val == ("t", S.argterm(2)), f"{key}:{m}:value", f"{b.name}::{m} stores the value it is given: {shown(t, 4)}", b.where)
                    seen[s] = m
                else:
                    c.ob(False, f"{key}:{m}", f"{b.name}::{m} changes exactly one setting: {changed}", b.where)
        N = c.an(b.adt + "::new")
        v = only(N, Q(N))
        if v is not None and nd(v)[0] == "agg":
            names = {}
            for i in range(1, N.inl.entry_body.argc + 1):
                names[N.argterm(i)] = nd(N.argterm(i))[2]
            stored = set()
            for s, (f, opt, d) in b.map.items():
                val = b.value(s, N.simp(project(v, f)), N)
                if val and val[0] == "t" and val[1] in names:
                    nm = names[val[1]]
                    stored.add(val[1])
                    c.ob(SETTER.get((b.kind, nm), nm) == s, f"{key}:new:{s}", f"{b.name}::new stores its argument {nm} as {s}", b.where)
                elif s in DOC[b.kind]:
                    check_default(c, b, s, N, v, f"{key}:new-default")
            c.ob(stored == set(names), f"{key}:new:all", f"{b.name}::new uses all its arguments", b.where)
        ds = [p for p in c.prog().bodies if p.endswith("::default") and f"::{b.name} as " in p]
        c.floor(len(ds), 1, f"{key}:default", f"Default of {b.name}")
        for p in ds:
            D = c.an(p)
            v = only(D, Q(D))
            if v is None:
                continue
            for s in b.map:
                check_default(c, b, s, D, v, f"{key}:default")


def check_default(c, b, s, D, v, key):
    f = b.map[s][0]
    val = b.value(s, D.simp(project(v, f)), D)
    if val is None or s not in DOC[b.kind]:
        return
    try:
        x = val[1] if val[0] == "v" else concrete(D, val[1])
    except Unknown:
        return
    c.ob(same(x, DOC[b.kind][s]), f"{key}:{s}", f"{b.name}: {s} is {x} by default, documented is {DOC[b.kind][s]}", b.where)


@rule("C20", ("all", "nodefault"))
def defaults(c):
    """documented defaults of the parameter structures"""
    tab = [("OQNLPParams", PARAMS)]
    if c.cfg == "all":
        tab += [("CheckpointConfig", CKPT), ("LineSearchParams", LS)]
    for nm, doc in tab:
        ps = [p for p in c.prog().bodies if p.endswith("::default") and f"::{nm} as " in p]
        c.floor(len(ps), 1, f"{nm}:default", f"Default of {nm}")
        for p in ps:
            D = c.an(p)
            v = only(D, Q(D))
            if v is None:
                continue
            k = 0
            for s, want in doc.items():
                try:
                    x = concrete(D, project(v, s))
                except Unknown:
                    continue
                k += 1
                c.ob(same(x, want), f"{nm}:{s}", f"{nm}::default: {s} is {x}, documented is {want}", p)
            c.floor(k, 1, f"{nm}:known", f"decided defaults of {nm}")


OQ = [("max_time", {"max_time": 2}), ("batch_iterations", {"batch_iterations": 2}), ("parallel", {"enable_parallel": 2}), ("target_objective", {"target_objective": 2}),
      ("set_exclude_out_of_bounds", {"exclude_out_of_bounds": 2}), ("exclude_out_of_bounds", {"exclude_out_of_bounds": True}),
      ("with_tolerance", {"abs_tol": 2, "rel_tol": 3}), ("verbose", {"verbose": True})]


@rule("C20", ("all", "nodefault"))
def optimizer(c):
    """the setters of the optimiser set exactly what they name"""
    ad = [p for p in c.prog().adts if p.endswith("oqnlp::OQNLP")]
    c.need(ad, "OQNLP", "the optimiser structure")
    fields = [f["name"] for f in c.prog().adts[ad[0]]["vars"][0]["fields"]]
    for m, want in OQ:
        p = c.fn("OQNLP::<P>::" + m, optional=True)
        if p is None:
            continue
        S = c.an("OQNLP::<P>::" + m)
        for g, v, r in returns(S, Q(S)):
            me = S.argterm(1)
            for f in fields:
                t = S.simp(project(v, f))
                if f in want:
                    w = TRUE if want[f] is True else S.argterm(want[f])
                    ok = t == w or (nd(t)[0] == "agg" and nd(t)[2] == "Some" and S.simp(nd(t)[4][0]) == w)
                    c.ob(ok, f"OQNLP:{m}:{f}", f"OQNLP::{m} sets {f} to the given value: {shown(t, 4)}", "src/oqnlp.rs " + m)
                else:
                    c.ob(t == S.simp(field(me, f)), f"OQNLP:{m}:other", f"OQNLP::{m} leaves {f} alone: {shown(t, 4)}", "src/oqnlp.rs " + m)
    N = c.an("OQNLP::<P>::new")
    k = 0
    for g, v, r in returns(N, Q(N)):
        if not (nd(v)[0] == "agg" and nd(v)[2] == "Ok"):
            continue
        o = payload(v, "Ok")
        k += 1
        for f, w in (("max_time", None), ("verbose", False), ("target_objective", None), ("exclude_out_of_bounds", False), ("abs_tol", 1e-8), ("rel_tol", 1e-6),
                     ("batch_iterations", None), ("enable_parallel", True), ("custom_points", None), ("solution_set", None), ("observer", None)):
            if f not in fields:
                continue
            try:
                x = concrete(N, project(o, f))
            except Unknown:
                continue
            c.ob(same(x, w), f"OQNLP:new:{f}", f"OQNLP::new: {f} starts as {x}, documented is {w}", "src/oqnlp.rs new")
    c.floor(k, 1, "OQNLP:new", "constructor results")


@rule("C20", ("all", "nodefault"))
def copies(c):
    """clone() of every type of the crate copies each field unchanged, in every variant"""
    k = 0
    for p in sorted(c.prog().bodies):
        if not p.endswith("as std::clone::Clone>::clone") or not p.startswith("globalsearch::<"):
            continue
        adt = "globalsearch::" + p[len("globalsearch::<"):].split(" as ")[0].split("<")[0]
        d = c.prog().adts.get(adt)
        if d is None:
            continue
        A = c.an(p)
        q = Q(A)
        me = A.argterm(1)
        names = [v["name"] for v in d["vars"]]
        done = set()
        w = f"clone of {adt.rsplit('::', 1)[-1]}"
        for f, v, r in returns(A, q):
            v = A.simp(v)
            n = nd(v)
            k += 1
            if v == me or v == A.simp(me):
                done |= set(names)
                continue
            if n[0] != "agg":
                continue
            var = n[2] if d["enum"] else names[0]
            done.add(var)
            if d["enum"]:
                c.ob(implies(f, A.isvar(me, var, names)) or len(names) == 1, f"clone:{adt}:{var}:variant", f"{w}: the copy is of the same variant", w)
            for x, t in zip(n[3], n[4]):
                src = A.simp(field(project_var(me, var) if d["enum"] else me, x))
                c.ob(A.simp(t) == src or locked(A, q, t, src, f), f"clone:{adt}:{var}:{x}", f"{w}: {x} is copied unchanged: {shown(t, 5)}", w)
        c.ob(done >= set(names) or not d["enum"] and bool(done), f"clone:{adt}:variants", f"{w}: decided for {sorted(done)}", w)
    c.floor(k, 8, "clones", "clone results")


def project_var(t, var):
    return project(t, "#" + var)


def locked(A, q, t, src, G):
    """a fresh lock around what the lock in src holds"""
    for g, x in q.cases(t):
        if not sat(AND(G, g)):
            continue
        n = nd(A.simp(x))
        if n[0] == "agg" and n[2] == "None":
            if sat(AND(G, g, some(A, src))):
                return False
            continue
        if n[0] != "agg" or n[2] != "Some":
            return False
        ys = set(subterms(A.simp(n[4][0])))
        if A.simp(payload(src)) not in ys and src not in ys:
            return False
    return True


@rule("C20", ("all", "nodefault"))
def starting_points(c):
    """the shorthand constructors start from the documented defaults of the kind they name; the setters of the scatter search set what they name"""
    bs = {b.adt: b for b in builders(c)}
    k = 0
    for p in sorted(c.prog().bodies):
        b0 = c.prog().bodies[p]
        if b0.argc != 0 or "::builders::LocalSolverConfig::" not in p and "::builders::LineSearchParams::" not in p or "{" in p or "<" in p:
            continue
        D = c.an(p)
        v = only(D, Q(D))
        if v is None or nd(v)[0] != "agg" or nd(v)[1] not in bs:
            continue
        b = bs[nd(v)[1]]
        m = p.rsplit("::", 1)[-1]
        k += 1
        c.ob(m.replace("_", "") == b.kind.lower(), f"start:{m}", f"{m}() starts a {b.kind} configuration", p)
        for s in b.map:
            check_default(c, b, s, D, v, f"start:{m}")
    c.floor(k, 6 if c.cfg == "all" else 1, "starts", "shorthand constructors")
    ad = [p for p in c.prog().adts if p.endswith("scatter_search::ScatterSearch")]
    c.need(ad, "ScatterSearch", "the scatter search structure")
    fields = [f["name"] for f in c.prog().adts[ad[0]]["vars"][0]["fields"]]
    for m, f0 in (("parallel", "enable_parallel"), ("with_observer", "observer"), ("with_custom_points", "custom_points")):
        ps = [p for p in c.prog().bodies if p.endswith("ScatterSearch::<'a, P>::" + m) or p.endswith("ScatterSearch::<P>::" + m)]
        for p in ps:
            S = c.an(p)
            for g, v, r in returns(S, Q(S)):
                me = S.argterm(1)
                for f in fields:
                    t = S.simp(project(v, f))
                    if f == f0:
                        ok = t == S.argterm(2) or nd(t)[0] == "agg" and nd(t)[2] == "Some" and (S.simp(nd(t)[4][0]) == S.argterm(2) or nd(nd(t)[4][0])[0] == "mref" and tuple(nd(nd(t)[4][0])[1]) == (("A", 2),))
                        c.ob(ok, f"ScatterSearch:{m}:{f}", f"ScatterSearch::{m} sets {f} to the given value: {shown(t, 4)}", p)
                    else:
                        c.ob(t == S.simp(field(me, f)), f"ScatterSearch:{m}:other", f"ScatterSearch::{m} leaves {f} alone: {shown(t, 4)}", p)
