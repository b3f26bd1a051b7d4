"""Checkpoints: what is captured, written, found, restored, and where a resumed run continues."""
from lib import *
from runlib import *
from r_solver import path_of
from r_flow import reach
from r_gate import counters, fieldend

CK = ("all", "checkpointing")


def strip(t):
    """below Option wrappers: a payload projection, Some{x}"""
    while True:
        n = nd(t)
        if n[0] == "fld" and n[2] == "0" and nd(n[1])[0] == "fld" and nd(n[1])[2] in ("#Some", "#Ok"):
            t = nd(n[1])[1]
        elif n[0] == "agg" and n[2] == "Some" and len(n[4]) == 1:
            t = n[4][0]
        else:
            return t


def sources(A, q, t, root):
    """paths below root that the value t is, in all its cases that carry anything"""
    out = set()
    for g, v in q.cases(t):
        v = A.simp(strip(A.simp(v)))
        if nd(v)[0] == "call" and plain_leaf(nd(v)[1]) in ("new", "default") and not nd(v)[2]:
            continue        # the empty default of an absent value
        if nd(v)[0] == "agg" and nd(v)[2] == "None":
            continue
        p = path_of(A, v, root)
        out.add(p if p is not None else "?" + shown(v, 4))
    return out


# live state -> required in the checkpoint
LIVE = ["params", "current_iteration", "merit_filter.threshold", "solution_set", "current_reference_set", "unchanged_cycles",
        "distance_filter.solutions", "current_seed", "target_objective", "exclude_out_of_bounds", "abs_tol", "rel_tol"]
LIVE_RAYON = ["batch_iterations", "enable_parallel"]


@rule("C14", CK)
def capture_restore(c):
    """create_checkpoint and restore_from_checkpoint are inverse, field by field, and what depends on the parameters is rebuilt"""
    A = c.an("OQNLP::<P>::create_checkpoint", ("CheckpointManager",))
    q = Q(A)
    self_ = arg(A, 1)
    cap = {}
    where = "src/oqnlp.rs create_checkpoint"
    for f, v, r in returns(A, q):
        n = nd(v)
        c.need(n[0] == "agg" and n[1].endswith("OQNLPCheckpoint"), "aggregate", "create_checkpoint returns a checkpoint built there")
        for k, t in zip(n[3], n[4]):
            cap.setdefault(k, set()).update(sources(A, q, t, self_))
    c.floor(len(cap), 10, "fields", "checkpoint fields")
    back = {}
    for k, s in cap.items():
        for p in s:
            back.setdefault(p, set()).add(k)
        for k, t in zip(n[3], n[4]):
            for p in sources(A, q, t, self_):
                x = self_
                for y in p.split("."):
                    x = field(x, y)
                for g, v2 in q.cases(t):
                    y = nd(A.simp(v2))
                    if y[0] == "agg" and y[2] == "None" or y[0] == "call" and plain_leaf(y[1]) in ("new", "default") and not y[2]:
                        c.ob(not sat(AND(f, g, A.isvar(x, "Some", ["None", "Some"]))), f"captured:{p}:absent", f"checkpoint.{k} is empty only if there is no self.{p}", where)
    live = LIVE + (LIVE_RAYON if c.cfg == "all" else [])
    Rs = c.an("OQNLP::<P>::restore_from_checkpoint", ("LocalSolver::new",))
    rq = Q(Rs)
    me, cp = arg(Rs, 1), arg(Rs, 2)
    oks = [(f, r) for f, v, r in returns(Rs, rq) if nd(v)[0] == "agg" and nd(v)[2] == "Ok"]
    c.need(oks, "restore-ok", "restore_from_checkpoint returns Ok")
    wr = "src/oqnlp.rs restore_from_checkpoint"
    for p in live:
        ks = back.get(p, set())
        c.ob(bool(ks), f"captured:{p}", f"the checkpoint captures self.{p}", where)
        for k in ks:
            c.ob(cap[k] == {p}, f"captured:{p}:only", f"checkpoint.{k} is self.{p} in every case: {sorted(cap[k])}", where)
        for f, r in oks:
            got = set()
            for g, v in rq.cases(Rs.read(Rs.sout[r], loc(1, *p.split(".")))):
                if AND(f, g) != 0:
                    v = Rs.simp(strip(Rs.simp(v)))
                    x = path_of(Rs, v, cp)
                    got.add(x if x is not None else "?" + shown(v, 4))
            for x in got:
                c.ob(x in ks, f"restored:{p}", f"self.{p} is restored from what was captured of it, got {x}", wr)
    # derived state
    derived = {"distance_filter.params.distance_factor": "params.distance_factor"}
    for p, want in derived.items():
        for f, r in oks:
            for g, v in rq.cases(Rs.read(Rs.sout[r], loc(1, *p.split(".")))):
                if AND(f, g) != 0:
                    c.ob(path_of(Rs, v, cp) == want, f"derived:{p}", f"self.{p} follows the restored {want}: {shown(v, 5)}", wr)
    for f, r in oks:
        for g, v in rq.cases(Rs.read(Rs.sout[r], loc(1, "local_solver"))):
            if AND(f, g) == 0:
                continue
            n = nd(Rs.simp(v))
            a = list(n[2]) if n[0] == "call" and plain_leaf(n[1]) == "new" else list(n[4]) if n[0] == "agg" else []
            ok = {"params.local_solver_type", "params.local_solver_config"} <= {path_of(Rs, x, cp) for x in a} and "problem" in {path_of(Rs, x, me) for x in a}
            c.ob(ok, "derived:local_solver", f"the local solver is rebuilt from the restored parameters: {shown(v, 5)}", wr)


# ------------------------------------------------------------ C14: what is written is what is read
def below(t, root):
    """field names of the deepest part of root in t"""
    best = None
    for s in subterms(t):
        n = nd(s)
        if n[0] == "fld":
            names, x = [], s
            while nd(x)[0] == "fld":
                names.append(nd(x)[2])
                x = nd(x)[1]
            if x == root and (best is None or len(names) > len(best)):
                best = names[::-1]
    return best


@rule("C14", CK)
def serialised(c):
    """every field of every serialised type is written once and read back into the same field, in the same order"""
    import re
    written, read = {}, {}
    bodies = c.prog().bodies
    kinds = ("serialize_field", "serialize_newtype_struct", "serialize_newtype_variant", "serialize_element")
    for p in sorted(bodies):
        m = re.search(r"<impl serde::Serialize for ([\w:]+)>::serialize$", p)
        if m:
            A = c.an(p, ("SerializeWith",))
            q = Q(A)
            me = arg(A, 1)
            pos = {n: i for i, n in enumerate(A.flow.order)}
            for e in sorted((e for e in A.events() if plain_leaf(e.path) in kinds), key=lambda e: pos[e.node]):
                names = below(A.simp(e.args[-1]), me)
                if names is None:
                    continue
                v = names[0][1:] if names[0].startswith("#") else m.group(1).rsplit("::", 1)[-1]
                if names[0].startswith("#") and len(names) < 2:
                    continue
                f = names[1] if names[0].startswith("#") else names[0]
                written.setdefault((m.group(1), v), []).append(f)
                c.ob(not A.flow.inl[e.node], f"ser:{m.group(1)}:{f}:once", f"{m.group(1)}.{f} is written once", e.where())
        m = re.search(r"<impl serde::Deserialize<'de> for ([\w:]+)>::deserialize::.*visit_seq(?:#\d+)?$", p)
        if m:
            A = c.an(p, ("DeserializeWith",))
            q = Q(A)
            pos = {n: i for i, n in enumerate(A.flow.order)}
            ne = {A.simp(e.ret): e for e in A.events() if plain_leaf(e.path) == "next_element"}
            for f, v, r in returns(A, q):
                if nd(v)[0] != "agg" or nd(v)[2] != "Ok":
                    continue
                x = nd(A.simp(payload(v, "Ok")))
                if x[0] != "agg":
                    continue
                seq = []
                for k, t in zip(x[3], x[4]):
                    t = A.simp(t)
                    hit = [e for s in subterms(t) for r_, e in ne.items() if s == r_]
                    c.ob(len(hit) >= 1, f"de:{m.group(1)}:{x[2]}:{k}", f"{m.group(1)}::{x[2]}.{k} is read from the file: {shown(t, 4)}", p[-60:])
                    if hit:
                        seq.append((max(pos[e.node] for e in hit), k))
                c.ob(len({s for s, _ in seq}) == len(seq), f"de:{m.group(1)}:{x[2]}:distinct", f"each field of {m.group(1)} is read from its own element", "")
                read.setdefault((m.group(1), x[2]), [k for _, k in sorted(seq)])
    need = ["types::OQNLPCheckpoint", "types::OQNLPParams", "types::LocalSolution", "types::SolutionSet", "types::LocalSolverType"]
    tys = {t for t, _ in written} | {t for t, _ in read}
    for t in need[:4]:
        c.ob(t in tys, f"serialised:{t}", f"{t} is serialised", "")
    adts = c.prog().adts if hasattr(c.prog(), "adts") else {}
    for k in sorted(set(written) | set(read)):
        w, r = written.get(k), read.get(k)
        if r is None or w is None:
            continue
        c.ob(w == r, f"order:{k[0]}:{k[1]}", f"{k[0]}::{k[1]} is written as {w} and read as {r}", "src/types.rs")
    c.floor(sum(1 for k in written if k in read), 4, "types", "serialised types")
    # the reference set has functions of its own
    A = c.an("types::serialize_vec_array1", ())
    q = Q(A)
    v = arg(A, 1)
    es = [e for e in A.events() if plain_leaf(e.path) == "serialize_element"]
    for e in es:
        t = A.simp(e.args[1])
        while call_of(t, "to_vec") or call_of(t, "as_slice"):
            t = A.simp((call_of(t, "to_vec") or call_of(t, "as_slice"))[0])
        acc = nd(t)
        c.ob(acc[0] == "elem" and A.simp(acc[1]) == v and len(A.flow.inl[e.node]) == 1 and once_per(A, e), "ref-set:write",
             f"every reference point is written: {shown(t, 5)}", e.where())
    D = c.an("types::deserialize_vec_array1", ())
    dq = Q(D)
    for f, v, r in returns(D, dq):
        if nd(v)[0] == "agg" and nd(v)[2] == "Ok":
            col = D.simp(payload(v, "Ok"))
            for x, p in dq.elems(col):
                if p is None:
                    continue
                ns = dq.pushnodes(p)
                for n in ns:
                    h = D.flow.inl[n]
                    c.ob(len(h) == 1, "ref-set:read", f"every written point is read: {shown(x, 5)}", "src/types.rs deserialize_vec_array1")


def once_per(A, e):
    """event e happens in every iteration of its loop that does not fail"""
    h = A.flow.inl[e.node][0]
    f = A.rel(h, e.node)
    return all(a[0] == "is" for a in atoms(f))


# ------------------------------------------------------------ C15: where a resumed run continues
def plus_one(t):
    n = nd(t)
    if n[0] == "bin" and n[1] == "Add":
        for a, b in ((n[2], n[3]), (n[3], n[2])):
            if nd(a)[0] == "c" and str(nd(a)[1]) == "1":
                return b
    return None


def chase_index(R, x, depth=0, seen=None):
    """what an index taken from nested collections of (index, point) pairs originally counts: [('idx', domain) | other term]"""
    A, q = R.A, R.q
    seen = set() if seen is None else seen
    if depth > 14 or x in seen:
        return []
    seen.add(x)
    out = []
    for g, y in q.cases(x):
        if nd(y)[0] == "idx":
            out.append(y)
            continue
        acc, comps, full = q.access(y)
        if acc is None:
            out.append(y)
            continue
        n0 = len(out)
        for v, p in q.elem_of(acc):
            z = v
            for k in comps:
                z = project(z, k)
            if z != UNDEF and A.simp(z) != y:
                z = A.simp(z)
                # a position counted by a range, used to take the point with it
                if nd(z)[0] == "elem" and is_range(A.simp(nd(z)[1])):
                    vs = {A.simp(nd(u)[1]) for u in subterms(A.simp(v)) if nd(u)[0] == "at" and A.simp(nd(u)[2]) == z}
                    if len(vs) == 1:
                        out.append(mk("idx", vs.pop(), nd(z)[2]))
                        continue
                out += chase_index(R, z, depth + 1, seen)
        if len(out) == n0 and (acc, full) not in seen and y not in seen:
            out.append(y)
    return out


@rule("C15", CK)
def resume_position(c):
    """a checkpoint taken in Stage 2 names the position after the last examined candidate and the counter of that moment; a resumed run starts there"""
    R = Run(c)
    A, q, fl = R.A, R.q, R.fl
    entries = {n for n, x in R.entries}
    solves = {e.node for e in R.stage2}
    saves = list(q.calls("save_checkpoint"))
    c.floor(len(saves), 2, "saves", "places that save a checkpoint during run()")
    n, doms = 0, set()
    for e in saves:
        cp = A.simp(e.args[1])
        it = A.simp(field(cp, "current_iteration"))
        c.ob(A.simp(e.args[2]) == it, "named", f"the file is named after the iteration it holds: {shown(e.args[2], 4)} / {shown(it, 4)}", e.where())
        hs = fl.inl[e.node]
        if not hs or hs[-1] != R.H:
            continue
        n += 1
        idx = plus_one(it)
        if idx is None:
            c.ob(False, "position", f"the saved position is one past a candidate: {shown(it, 5)}", e.where())
            continue
        srcs = chase_index(R, idx)
        doms |= {b for x in srcs if nd(x)[0] == "idx" for b in base_sets(A, nd(x)[1])}
        c.ob(bool(srcs) and all(nd(s)[0] == "idx" and not skips(nd(s)[1]) for s in srcs), "position",
             f"the saved position is one past the candidate's position in the whole reference set: {[shown(s, 4) for s in srcs]}", e.where())
        # nothing is examined after the save in the same pass
        h = hs[0]
        after = reach(A, [v for v in fl.succ[e.node] if (e.node, v) in A.feas], stop={h})
        more = [m for m in after if (m in solves or m in entries) and m in fl.loops[h]]
        c.ob(not more, "after", "no candidate of the same pass is examined after the checkpoint that counts it as done", e.where())
        # the candidate it names is the last one examined
        if h == R.H:
            ok = call_of(strip(idx_base(idx)), "last") is not None or last_elem(A, idx)
            c.ob(ok, "last", f"a batch checkpoint names the last candidate of the batch: {shown(idx, 5)}", e.where())
        else:
            b = idx_base(idx)
            c.ob(nd(b)[0] in ("elem", "idx") , "last", f"the checkpoint names the candidate just examined: {shown(idx, 5)}", e.where())
        # the wait counter of that moment
        un = A.simp(field(cp, "unchanged_cycles"))
        cl = set()
        for hh in fl.loops:
            if R.H in fl.inl.get(hh, ()) or hh == R.H:
                for C0, l, wt in counters(A, hh):
                    cl.add(l)
        if cl:
            c.ob(any(A.simp(A.read(A.sin[e.node], l)) == un for l in cl), "counter", f"the checkpoint holds the wait counter of that moment: {shown(un, 5)}", e.where())
    c.floor(n, 1, "loop-saves", "checkpoints saved inside Stage 2")
    # the stored reference set is the one Stage 2 walks through, in that order
    crs = A.simp(A.read(A.sin[R.H], loc(1, "current_reference_set")))
    k = 0
    for g1, v1 in q.cases(crs):
        v1 = A.simp(v1)
        if nd(v1)[0] == "agg" and nd(v1)[2] == "None":
            continue
        for g3, s in q.cases(strip(v1)):
            s = A.simp(strip(A.simp(s)))
            for d in doms:
                for g2, v2 in q.cases(d):
                    v2 = A.simp(strip(A.simp(v2)))
                    if not sat(AND(g1, g2, g3, A.guard(R.H))) or nd(v2)[0] == "call" and plain_leaf(nd(v2)[1]) in ("new", "default"):
                        continue
                    k += 1
                    c.ob(v2 == s, "same-set", f"the stored reference set is the one being examined: {shown(s, 4)} / {shown(v2, 4)}", "src/oqnlp.rs run")
    c.floor(k, 1, "stored-set", "stored reference sets compared")


def pending_flag(c, A, q):
    """the flag restore_from_checkpoint raises: a field of the optimiser it sets to true whatever the checkpoint holds"""
    out = set()
    adt = next(p for p in c.prog().adts if p.endswith("oqnlp::OQNLP"))
    for f in c.prog().adts[adt]["vars"][0]["fields"]:
        if f["ty"] != "bool":
            continue
        vs = [A.simp(v) for g, v, r in final(A, q, loc(1, f["name"])) if sat(AND(g, ok_case(A, q)))]
        if vs and all(nd(v)[0] == "c" and int(nd(v)[1]) == 1 for v in vs):
            out.add(f["name"])
    return out


def ok_case(A, q):
    return OR(*[f for f, v, r in returns(A, q) if nd(v)[0] == "agg" and nd(v)[2] == "Ok"])


@rule("C15", CK)
def resume_entry(c):
    """run(): it continues from a restored checkpoint, or from the latest one if that is enabled and there is one, and otherwise starts afresh; a run that continues enters Stage 2
    with exactly the state restored, at the stored position"""
    from r_flow import starts_of
    Rs = c.an("OQNLP::<P>::restore_from_checkpoint", ("LocalSolver::new",))
    flags = pending_flag(c, Rs, Q(Rs))
    where = "src/oqnlp.rs run"
    c.ob(len(flags) == 1, "flag", f"restoring a checkpoint marks the optimiser as to be continued: {sorted(flags)}", "src/oqnlp.rs restore_from_checkpoint")
    if len(flags) != 1:
        return
    flag = flags.pop()
    R = Run(c)
    A, q, fl = R.A, R.q, R.fl
    me = R.self_
    pend = A.cond(field(me, flag))
    exists = [e for e in q.calls("checkpoint_exists")]
    loads = list(q.calls("load_latest_checkpoint"))
    mgr = A.isvar(field(me, "checkpoint_manager"), "Some", ["None", "Some"])
    auto = 0
    for e in q.calls("config"):
        if "CheckpointManager" in e.path and not fl.inl[e.node]:
            auto = OR(auto, A.cond(field(e.ret, "auto_resume")))
    there = OR(*[A.cond(e.ret) for e in exists])
    c.floor(len(exists) + len(loads), 2, "lookup", "lookups of the latest checkpoint in run()")
    late = AND(NOT(pend), mgr, auto, there)
    s1 = OR(*[A.guard(e.node) for e in q.calls("run") if "ScatterSearch" in e.path])
    ent = OR(*[AND(A.guard(p), A.edge_cond(p, R.H)) for p in fl.pred[R.H] if (p, R.H) not in fl.back])
    c.ob(not sat(AND(s1, OR(pend, late))), "continues", f"a run that continues does not start with Stage 1: {A.show_f(AND(s1, OR(pend, late)))[:200]}", where)
    c.ob(sat(s1) and not sat(AND(ent, NOT(OR(pend, late)), NOT(s1))), "afresh", "a run with nothing to continue from starts with Stage 1", where)
    ld = OR(*[A.guard(e.node) for e in loads])
    c.ob(equiv(ld, late), "loads", "the latest checkpoint is loaded iff no state was restored, resuming is enabled and there is one", where)
    # the state at the start of Stage 2
    k = 0
    rq = Q(Rs)
    cp = arg(Rs, 2)
    live = LIVE + (LIVE_RAYON if c.cfg == "all" else [])
    froms = {}
    for p in live:
        froms[p] = {path_of(Rs, Rs.simp(strip(Rs.simp(v))), cp) for g, v, r in final(Rs, rq, loc(1, *p.split("."))) if sat(AND(g, ok_case(Rs, rq)))}
    for p in fl.pred[R.H]:
        if (p, R.H) in fl.back:
            continue
        st = A.sout[p]
        for x in live:
            init = me
            for f in x.split("."):
                init = field(init, f)
            for g, v in q.cases(A.read(st, loc(1, *x.split(".")))):
                v = A.simp(v)
                if sat(AND(ent, pend, g)):
                    k += 1
                    c.ob(v == A.simp(init), f"kept:{x}", f"a restored {x} is that with which Stage 2 starts: {shown(v, 5)[:100]}", where)
                for e in loads:
                    G = AND(ent, late, g, A.guard(e.node))
                    if sat(G):
                        k += 1
                        got = path_of(A, A.simp(strip(v)), A.simp(payload(e.ret, "Ok")))
                        c.ob(got in froms[x], f"loaded:{x}", f"the loaded {x} is that with which Stage 2 starts: {shown(v, 5)[:100]}", where)
    c.floor(k, 20, "state", "parts of the state Stage 2 starts with")
    # the position and the counter
    for p in fl.pred[R.H]:
        if (p, R.H) in fl.back:
            continue
        st = A.sout[p]
        cur = A.simp(A.read(st, loc(1, "current_iteration")))
        ws = A.simp(A.read(st, loc(1, "unchanged_cycles")))
        going = AND(ent, OR(pend, late))
        for lo in starts_of(R):
            vs = q.cases(lo) if lo is not None else [(1, const(0, "usize"))]
            c.ob(agree(A, q, vs, q.cases(cur), going), "start", f"a run that continues starts at the stored position: {shown(lo, 5) if lo is not None else 0}", where)
        ls = {l for h in fl.loops if h == R.H or R.H in fl.inl.get(h, ()) for t, l, w in counters(A, h)}
        c.floor(len(ls), 1, "counter", "wait counters")
        for l in ls:
            v = A.simp(A.read(st, l))
            c.ob(agree(A, q, q.cases(v), q.cases(ws), going), "waits", f"a run that continues starts with the stored wait counter: {shown(v, 5)}", where)
            for g, x in q.cases(v):
                if sat(AND(g, ent, NOT(OR(pend, late)))):
                    c.ob(nd(x)[0] == "c" and nd(x)[1] == 0, "waits:fresh", f"a fresh run starts with no unsuccessful iteration: {shown(x, 4)}", where)
    # the next run does not continue from this one
    for f, v, r in returns(A, q):
        if nd(v)[2:3] != ("Err",):
            for g, x in q.cases(A.read(A.sout[r], loc(1, flag))):
                if sat(AND(f, g)):
                    x = nd(A.simp(x))
                    c.ob(x[0] == "c" and int(x[1]) == 0, "cleared", "a run that returned leaves nothing to be continued", where)


def agree(A, q, vs, ws, G):
    """do two values, given by cases, agree wherever G?"""
    return all(A.simp(a) == A.simp(b) for g, a in vs for h, b in ws if sat(AND(g, h, G)))


@rule("C15", CK)
def resume_calls(c):
    """the explicit ways to resume hand on the checkpoint as loaded, except for the parameters and points added at the end of the reference set"""
    n = 0
    for m in ("try_resume_from_checkpoint", "resume_with_modified_params", "resume_from_checkpoint_with_params"):
        A = c.an(f"OQNLP::<P>::{m}", ("restore_from_checkpoint", "CheckpointManager", "diversify_reference_set", "ScatterSearch::new"))
        q = Q(A)
        where = f"src/oqnlp.rs {m}"
        adt = next(p for p in c.prog().adts if p.endswith("OQNLPCheckpoint"))
        fs = [f["name"] for f in c.prog().adts[adt]["vars"][0]["fields"]]
        loads = list(q.calls("load_latest_checkpoint", "load_checkpoint_from_path"))
        es = list(q.calls("restore_from_checkpoint"))
        c.floor(len(es), 1, f"{m}", "places that restore a checkpoint")
        for e in es:
            n += 1
            for f in fs:
                if f == "params" and m != "try_resume_from_checkpoint":
                    continue
                for g, v in q.cases(A.simp(field(A.simp(e.args[1]), f))):
                    if not sat(AND(g, A.guard(e.node))):
                        continue
                    v = A.simp(v)
                    ok = any(path_of(A, v, A.simp(payload(x.ret, "Ok"))) == f for x in loads)
                    if not ok and f == "reference_set" and m != "try_resume_from_checkpoint":
                        b = v
                        while nd(b)[0] in ("mut", "push"):
                            if nd(b)[0] == "push":
                                b = A.simp(nd(b)[1])
                                continue
                            i = A.mutinfo.get(tuple(nd(b)[2:4]))
                            if i is None or "diversify_reference_set" not in i[1]:
                                break
                            b = A.simp(i[3])
                        ok = any(path_of(A, b, A.simp(payload(x.ret, "Ok"))) == f for x in loads)
                    c.ob(ok, f"{m}:{f}", f"{m}: {f} is restored as loaded: {shown(v, 5)[:120]}", f"{where} {e.span}")
            for f, v, r in returns(A, q):
                if nd(v)[2:3] == ("Ok",) and sat(AND(f, OR(*[A.guard(x.node) for x in loads]))):
                    done = AND(A.guard(e.node), A.isvar(e.ret, "Ok", ["Ok", "Err"]))
                    c.ob(not sat(AND(f, OR(*[A.guard(x.node) for x in loads]), NOT(done))), f"{m}:done", f"{m} reports success only after restoring what it loaded", where)
                    x = nd(A.simp(payload(v, "Ok")))
                    if x[0] == "c" and isinstance(x[1], (bool, int)):
                        c.ob(int(x[1]) == 1, f"{m}:true", f"{m} reports that it resumed", where)
    c.floor(n, 3, "calls", "calls that restore a checkpoint")


def idx_base(idx):
    t = idx
    while nd(t)[0] == "fld":
        t = nd(t)[1]
    return t


def last_elem(A, idx):
    n = nd(idx_base(idx))
    if n[0] != "at":
        return False
    i = nd(n[2])
    return i[0] == "bin" and i[1] == "Sub" and call_of(i[2], "len") is not None


def skips(d):
    return any(nd(s)[0] == "agg" and nd(s)[1] in ("models::Skip",) for s in subterms(d))


def base_sets(A, d):
    """the collections below adaptors"""
    n = nd(d)
    while n[0] == "agg" and n[1].startswith("models::"):
        d = n[4][0]
        n = nd(d)
    if n[0] == "phi" or n[0] == "fld":
        yield d


# ------------------------------------------------------------ C33: a checkpoint is saved when one is due
def project_out(f, keep):
    """f with every atom that keep() does not want made irrelevant"""
    vs = [v for v in B.support(f) if not keep(B.vars[v])]
    for v in sorted(vs, reverse=True):
        f = B.exists(f, v)
    return f


def leaves_of_numbers(t, out):
    n = nd(t)
    if n[0] == "bin":
        leaves_of_numbers(n[2], out)
        leaves_of_numbers(n[3], out)
    elif n[0] == "call" and leafname(n[1]) in ("is_multiple_of", "div_ceil", "rem_euclid", "div_euclid", "checked_div", "checked_rem"):
        for x in n[2]:
            leaves_of_numbers(x, out)
    elif n[0] != "c":
        out.add(t)


def on_grid(c, A, f, due, fr, idx, prev):
    """(f without due, due without f), over all small frequencies and positions"""
    import grid
    a = b = None
    for F in range(0, 7):
        for i in range(0, 15):
            for p in ([i] if prev is None else range(max(0, i - 9), i + 1)):
                env = {fr: F, idx: i}
                if prev is not None:
                    env[prev] = p
                d = F > 0 and (i + 1) // F > p // F

                def other(x):
                    return None if x[0] in ("lt", "eq") else False

                def ev(g):
                    try:
                        return grid.holds(g, env.get, other)
                    except grid.Opaque as e:
                        if F == 0 and "arith" in str(e):
                            return None
                        raise
                x, y = ev(f), ev(due)
                if x and not d and a is None:
                    a = (F, p, i)
                if y and d and b is None:
                    b = (F, p, i)
    return a, b


@rule("C33", CK)
def due_saves(c):
    """within Stage 2 a checkpoint is saved exactly after the rounds that pass a multiple of the save frequency; whenever Stage 2 ends, one is saved"""
    import grid
    R = Run(c)
    A, q, fl = R.A, R.q, R.fl
    mgr = A.simp(A.read(A.sin[R.H], loc(1, "checkpoint_manager")))
    has = A.isvar(mgr, "Some", ["None", "Some"])
    saves = list(q.calls("save_checkpoint"))
    by = {}
    for e in saves:
        hs = fl.inl[e.node]
        if hs and hs[-1] == R.H:
            by.setdefault(hs[0], []).append(e)
    c.floor(len(by), 1, "rounds", "loops of Stage 2 that save checkpoints")
    # every loop of Stage 2 whose rounds examine candidates
    examine = {h for e in R.stage2 for h in fl.inl[e.node] if h == R.H or R.H in fl.inl.get(h, ())}
    par = [h for h in examine if h in by]
    c.need(par, "rounds", "loops of Stage 2 that examine candidates and save checkpoints")
    pts = {e.args[1] for e in R.stage2}
    for h, es in by.items():
        w = es[0].where()
        S = 0
        for e in es:
            S = OR(S, A.rel(h, e.node))
        its = {plus_one(A.simp(field(A.simp(e.args[1]), "current_iteration"))) for e in es}
        if len(its) != 1 or None in its:
            c.ob(False, f"due:position", "the checkpoints of a round name one position", w)
            continue
        idx = its.pop()
        # the frequency and the other end of the batch
        fr, others = None, set()
        for a in atoms(S):
            if a[0] in ("lt", "eq") and a[3] == "i" or a[0] == "b":
                ls = set()
                for x in a[1:]:
                    if isinstance(x, int) and not isinstance(x, bool):
                        try:
                            leaves_of_numbers(x, ls)
                        except Exception:
                            pass
                if any(fieldend(x, "save_frequency") for x in ls):
                    for x in ls:
                        if fieldend(x, "save_frequency"):
                            fr = x
                        elif x != idx:
                            others.add(x)
        if fr is None:
            c.ob(not sat(S), "due:frequency", "checkpoints within Stage 2 depend on the save frequency", w)
            continue
        c.ob(all(in_force(A, s, mgr) for s in subterms(fr) if nd(s)[0] == "call"), "due:own", f"the frequency is that of the run's own manager: {shown(fr, 6)}", w)
        prev = None
        first = h == R.H
        if first:
            ok = len(others) <= 1 and all(first_elem(A, x, idx) for x in others)
            c.ob(ok, "due:first", f"the candidates between which a multiple of the frequency lies are the first and the last of the batch: {[shown(x, 5) for x in others]}", w)
            if not ok:
                continue
            prev = others.pop() if others else None
            c.ob(prev is not None, "due:batch", "whether a multiple of the frequency lies within the batch depends on its first candidate", w)
            if prev is None:
                continue
        elif others:
            c.ob(False, "due:others", f"whether a checkpoint is due depends on the candidate just examined and the frequency only: {[shown(x, 5) for x in others]}", w)
            continue
        # what marks an empty batch, or a candidate before the resume position
        miss = 0
        for p in fl.pred[h]:
            if (p, h) in fl.back:
                miss = OR(miss, A.region(h)[1].get((p, h), 0))
        miss = AND(miss, NOT(S), has, NOT(skip_of(A, h, idx)))
        for h2 in by:
            if h in fl.inl.get(h2, ())[1:] or h2 != h and h2 in fl.loops[h]:
                miss = AND(miss, NOT(A.rel(h, h2)))     # its candidates are examined in a loop of their own
        for a in list(atoms(miss)) + list(atoms(S)):
            if is_target(a) or a[0] == "exists" and not sat(AND(a[2], *[NOT(B.var(x)) if is_target(x) else B.var(x) for x in atoms(a[2]) if is_target(x) or x[0] == "is" and x[2] == "Ok"])):
                miss = AND(miss, NOT(B.var(a)))         # Stage 2 ends: the final checkpoint
            if a[0] == "is" and a[2] == "Some" and nd(a[1])[0] == "call" and leafname(nd(a[1])[1]) in ("first", "last"):
                miss = AND(miss, B.var(a))
            if first and a[0] == "eq" and a[3] == "i" and any(nd(x)[0] == "c" and str(nd(x)[1]) == "0" for x in a[1:3]):
                x = a[1] if nd(a[2])[0] == "c" else a[2]
                y = call_of(x, "len")
                if y is not None and y[0] in set(subterms(idx)):
                    miss = AND(miss, NOT(B.var(a)))
        nums = {idx, fr} | ({prev} if prev is not None else set())

        def keep(a):
            if a[0] not in ("lt", "eq") or a[3] != "i":
                return a[0] == "b" and call_of(a[1], "is_multiple_of") is not None
            ls = set()
            for x in a[1:3]:
                leaves_of_numbers(x, ls)
            return bool(ls) and ls <= nums
        try:
            a, b = on_grid(c, A, project_out(S, keep), project_out(miss, keep), fr, idx, prev)
        except grid.Opaque as ex:
            raise Broken(f"C33: cannot evaluate {ex}")
        c.ob(a is None, "due:only", f"a checkpoint is saved only if a multiple of the frequency is passed (frequency, first, last examined: {a})", w)
        c.ob(b is None, "due:always", f"a checkpoint is saved whenever a multiple of the frequency is passed (frequency, first, last examined: {b})", w)
    # loops that examine candidates without saving must lie within a round that saves
    for e in R.stage2:
        hs = [h for h in fl.inl[e.node] if h == R.H or R.H in fl.inl.get(h, ())]
        c.ob(any(h in by for h in hs), "due:covered", "the loop that examines candidates is one that saves checkpoints", e.where())
    # the final checkpoint
    fin = 0
    for e in saves:
        if not fl.inl[e.node]:
            fin = OR(fin, A.guard(e.node))
    k = 0
    G = AND(A.guard(R.H), has)
    for f, v, r in returns(A, q):
        for g, x in q.cases(v):
            n = nd(A.simp(x))
            if n[0] == "agg" and n[2] == "Err":
                continue
            F = AND(f, g, G)
            if n[0] != "agg":
                F = AND(F, A.isvar(A.simp(x), "Ok", ["Ok", "Err"]))
            if sat(F):
                k += 1
                c.ob(not sat(AND(F, NOT(fin))), "final", "a run that goes through Stage 2 and returns its result has saved a final checkpoint", "src/oqnlp.rs run")
    c.floor(k, 1, "results", "results returned after Stage 2")


def is_target(a):
    return a[0] == "b" and call_of(a[1], "target_objective_reached") is not None


def in_force(A, s, mgr):
    n = nd(s)
    return leafname(n[1]) == "config" and bool(n[2]) and A.simp(payload(mgr)) == A.simp(n[2][0])


def skip_of(A, h, idx):
    from r_gate import skip_formula
    b = idx_base(idx)
    if nd(b)[0] == "idx":
        b = mk("elem", nd(b)[1], nd(b)[2])
    return skip_formula(A, h, [field(b, "1")])


def first_elem(A, x, idx):
    """x is to the first element of a list what idx is to its last"""
    for s in subterms(x):
        n = nd(s)
        y = call_of(s, "first")
        if y is not None and any(call_of(z, "last") == y for z in subterms(idx)):
            return True
        if n[0] == "at" and str(nd(n[2])[1]) == "0" and n[1] in set(subterms(idx)):
            return True
    return False
