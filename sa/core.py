"""Rule framework: configurations, cached analyses, obligations, known findings, evidence."""
import json, os, sys, time, traceback
import facts
from mir import Crate
from inline import Program
from gsa import Analysis
from terms import nd, mk, shown, short

VERIF = facts.VERIF
WORK = facts.WORK
LVL = "other"


class Broken(Exception):
    """the code no longer has the shape the rule can decide: reported as a violation (fail closed)"""
    def __init__(self, key, msg, where=""):
        Exception.__init__(self, msg)
        self.key, self.msg, self.where = key, msg, where


class Shared:
    """programs and analyses, shared by the rules of one process"""
    def __init__(self):
        self.paths = {}
        self.progs = {}
        self.ans = {}

    def load(self, configs, python=False):
        need = [c for c in configs if c not in self.paths]
        if need or (python and "python" not in self.paths):
            self.paths.update(facts.build(need, python=python))

    def prog(self, cfg):
        p = self.progs.get(cfg)
        if p is None:
            self.load([] if cfg == "python" else [cfg], python=cfg == "python")
            g, m = Crate(self.paths[cfg]), Crate(self.paths["models"])
            lost = [x for x in g.lost if "::PyClassImpl>" not in x]         # documentation constants pyo3 generates
            if lost:
                raise Broken("facts:lost", f"bodies without MIR: {lost[:5]}")
            crates = [g, m]
            if cfg == "python":         # the bindings are analysed together with the library they call, in the features they ask for
                self.load(["rayon"])
                crates.insert(1, Crate(self.paths["rayon"]))
            p = self.progs[cfg] = Program(crates)
            p.core = g
        return p


class Ctx:
    def __init__(self, pid, shared):
        self.pid, self.sh = pid, shared
        self.obs = []           # (ok, key, msg, where)
        self.stats = {"functions": set(), "call_sites": 0, "nodes": 0, "entries": []}
        self.cfg = None
        self.notes = []

    # ---- programs
    def prog(self, cfg=None):
        return self.sh.prog(cfg or self.cfg)

    def fn(self, suffix, cfg=None, optional=False):
        p = self.prog(cfg).find(suffix)
        if p is None and not optional:
            raise Broken(f"anchor:{suffix}", f"function `{suffix}` not found (or ambiguous)")
        return p

    def an(self, suffix, opaque=(), cfg=None, **kw):
        cfg = cfg or self.cfg
        key = (cfg, suffix, opaque if callable(opaque) else tuple(opaque), tuple(sorted(kw.items())))
        A = self.sh.ans.get(key)
        if A is None:
            path = self.fn(suffix, cfg)
            ops = tuple(opaque) if not callable(opaque) else None
            pred = opaque if ops is None else (lambda p: any(x in p for x in ops))
            A = Analysis(self.prog(cfg), path, opaque=pred, **kw)
            A.cfgname = cfg
            self.sh.ans[key] = A
        self.stats["functions"] |= A.inl.inlined
        tag = f"{cfg}:{short(A.inl.entry_body.path)}"
        if tag not in self.stats["entries"]:
            self.stats["entries"].append(tag)
            self.stats["nodes"] += len(A.flow.order)
            self.stats["call_sites"] += sum(1 for _ in A.events())
        return A

    # ---- obligations
    def ob(self, ok, key, msg, where=""):
        self.obs.append((bool(ok), f"{self.cfg}:{key}" if self.cfg else key, msg, where))
        return bool(ok)

    def need(self, v, key, msg, where=""):
        if not v:
            raise Broken((f"{self.cfg}:" if self.cfg else "") + key, msg, where)
        return v

    def floor(self, n, k, key, what):
        self.ob(n >= k, f"floor:{key}", f"{what}: {n} found, at least {k} expected")


RULES = {}


def rule(pid, configs=("all",), python=False):
    def d(f):
        RULES.setdefault(pid, []).append((f, tuple(configs), python))
        return f
    return d


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    j = json.load(open(p))
    return {k["key"]: k for k in j.get("findings", []) if k["property"] == pid}


def run_rule(pid, shared, tier="quick", verbose=False):
    t0 = time.time()
    c = Ctx(pid, shared)
    cfgs = sorted({x for _, cs, _ in RULES[pid] for x in cs})
    err = None
    try:
        shared.load(cfgs, python=any(p for _, _, p in RULES[pid]))
    except facts.FactsError as e:
        c.ob(False, "build", "the tree could not be analysed: " + str(e)[-600:])
        err = e
    if err is None:
        for f, cs, py in RULES[pid]:
            for cfg in (cs or (None,)):
                c.cfg = cfg
                try:
                    f(c)
                except Broken as e:
                    c.obs.append((False, e.key, e.msg, e.where))
                except Exception as e:
                    if verbose:
                        traceback.print_exc()
                    tb = traceback.extract_tb(e.__traceback__)[-1]
                    c.obs.append((False, f"{cfg}:undecided:{f.__name__}", f"the rule could not be decided: {type(e).__name__}: {e} "
                                  f"({os.path.basename(tb.filename)}:{tb.lineno})", ""))
    c.wall = time.time() - t0
    return c


def finish(c, tier, seed):
    pid = c.pid
    bad = [o for o in c.obs if not o[0]]
    kn = known(pid)
    fresh, seen = [], set()
    for ok, key, msg, where in bad:
        k = key.split(":", 1)[1] if key.split(":", 1)[0] in list(facts.CONFIGS) + ["python"] and ":" in key else key
        if k in kn:
            if k not in seen:
                seen.add(k)
                print(f"KNOWN-FINDING: property={pid} {kn[k]['what']}")
        else:
            fresh.append((key, msg, where))
    n = len(c.obs)
    names = sorted(f for f in c.stats["functions"] if not f.startswith("models::"))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": LVL,
        "coverage": {
            "explanation": "static analysis of /repo's current MIR: each obligation below is one instance of the property's rules, "
                           "decided on the inlined control-flow graph of the listed entry points",
            "obligations": n, "discharged": sum(1 for o in c.obs if o[0]),
            "configurations": sorted({e.split(":")[0] for e in c.stats["entries"]}),
            "entries": c.stats["entries"], "functions_analysed": len(names), "cfg_nodes": c.stats["nodes"],
            "call_sites": c.stats["call_sites"],
            "rules": sorted({f.__doc__.strip() if f.__doc__ else f.__name__ for f, _, _ in RULES[pid]}),
            "samples": [f"{k}: {m}" + (f" [{w}]" if w else "") for ok, k, m, w in c.obs[:12]],
            "functions": names[:400],
        },
        "wall_s": round(c.wall, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, pid + ".json")
        with open(rp, "w") as f:
            json.dump([{"key": k, "message": m, "where": w} for k, m, w in fresh], f, indent=1)
        for k, m, w in fresh[:20]:
            print(f"  {pid} {k}: {m}" + (f"  at {w}" if w else ""))
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"ok property={pid} obligations={n} functions={len(names)} call_sites={c.stats['call_sites']} "
          f"configurations={','.join(ev['coverage']['configurations'])} {c.wall:.1f}s")
    return 0
