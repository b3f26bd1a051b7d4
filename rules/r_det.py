"""Determinism: what a run may depend on (C09)."""
import re
from lib import *
from runlib import *
from taint import Taint
from slice import Slice
from r_observe import effect, shared_canon, SOLVES

# values that differ from process to process, thread to thread or moment to moment
AMBIENT = re.compile(r"(thread_rng|from_entropy|from_os_rng|try_from_os_rng|::rand_core::OsRng|OsRng::|ThreadRng|getrandom|^rand::(rng|random|random_range|random_bool|random_ratio|random_iter|fill|make_rng)$"
                     r"|^fastrand::|^std::env::|^std::process::id|^std::thread::(LocalKey|current|park_timeout|available_parallelism)|ThreadId|current_thread_index|SystemTime|^rayon::current_thread"
                     r"|RandomState|^std::ptr::(addr_eq|hash)|::expose_provenance|<impl \*(const|mut) T>::addr|Argument::<?.*new_pointer|^std::hash::BuildHasher::hash_one$)")
AMBIENT_TYPE = re.compile(r"\b(ThreadRng|OsRng|SysRng|UnwrapErr|RandomState|ThreadId)\b")
HASHED = re.compile(r"\b(HashMap|HashSet)<")
HASH_WALK = {"iter", "iter_mut", "keys", "values", "values_mut", "drain", "into_keys", "into_values", "into_iter", "retain", "extract_if", "union", "intersection", "difference", "symmetric_difference", "next", "fmt"}
CLOCKS = ("now", "elapsed", "duration_since", "checked_duration_since", "saturating_duration_since", "current_num_threads", "max_num_threads")
SHARED = re.compile(r"^std::sync::(Mutex|RwLock|mpsc|Condvar|Barrier|OnceLock|LazyLock|atomic)|^std::(cell|thread)::|^parking_lot|^std::thread::LocalKey|^rayon::(scope|spawn|join|in_place_scope|broadcast)|^crossbeam")
ATOMIC_ADD = {"fetch_add", "fetch_sub", "fetch_or", "fetch_and", "fetch_max", "fetch_min", "fetch_xor"}
# parallel iterator operations whose result does not depend on how the work is split and in which order it is done
ORDERED = {"map", "filter", "filter_map", "flat_map", "flat_map_iter", "zip", "zip_eq", "enumerate", "cloned", "copied", "rev", "skip", "take", "chunks", "chain", "inspect", "flatten", "flatten_iter", "step_by",
           "interleave", "map_with", "map_init", "update", "with_min_len", "with_max_len", "count", "len", "all", "any", "min", "max", "min_by", "max_by", "min_by_key", "max_by_key", "collect", "collect_into_vec", "unzip",
           "for_each", "for_each_with", "for_each_init", "find_first", "find_last", "position_first", "position_last", "find_map_first", "find_map_last", "partition", "intersperse", "panic_fuse", "cmp", "eq", "ne",
           "into_par_iter", "par_iter", "par_iter_mut", "par_chunks", "par_chunks_mut", "par_chunks_exact", "par_windows", "par_sort", "par_sort_by", "par_sort_by_key", "par_sort_by_cached_key",
           "par_extend", "unzip_into_vecs", "partition_map", "as_parallel_slice", "as_parallel_slice_mut", "opt_len", "from_par_iter", "par_drain"}
REDUCED = {"sum", "product", "reduce", "reduce_with", "fold", "fold_with", "try_reduce", "try_fold", "fold_chunks"}
INTS = {"usize", "u64", "u32", "u16", "u8", "isize", "i64", "i32", "i16", "i8", "bool", "()"}


def calls_of(b):
    """(terminator, path, callee record) of every direct call in a body"""
    for bb in b.blocks:
        t = bb["t"]
        if t["k"] == "call" and t["f"].get("fnr"):
            yield t, t["f"]["fnr"]["path"], t["f"]["fnr"]


def walkraw(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from walkraw(v)
    elif isinstance(x, list):
        for v in x:
            yield from walkraw(v)


def where_raw(b, t):
    return f"{t.get('fs') or t.get('s')} in {short(b.path)}"


def bodies(c):
    return {p: b for p, b in c.prog().bodies.items() if b.crate != "models"}


def fnitems(x):
    """functions mentioned in a piece of raw MIR: closures made and functions called or passed on"""
    for y in walkraw(x):
        if y.get("ak") == "closure":
            yield y["def"]
        if isinstance(y.get("fnr"), dict):
            r = y["fnr"]
            yield r.get("res") or r["path"]
            yield r["path"]


def reach(B_, roots):
    seen, work = {}, [(r, None) for r in roots]
    while work:
        p, why = work.pop()
        if p in seen or p not in B_:
            continue
        seen[p] = why
        for q_ in fnitems(B_[p].blocks):
            work.append((q_, p))
    return seen


def source_of(b, op):
    """what a local was made of: closures and functions, following moves and copies"""
    out, seen, work = set(), set(), [op]
    while work:
        o = work.pop()
        if not isinstance(o, dict):
            continue
        if isinstance(o.get("fnr"), dict):
            out.add(o["fnr"].get("res") or o["fnr"]["path"])
        p = o.get("p")
        if isinstance(p, dict) and "l" in p and p["l"] not in seen:
            seen.add(p["l"])
            for bb in b.blocks:
                for s in bb["st"]:
                    if s.get("p", {}).get("l") == p["l"] and s.get("r"):
                        r = s["r"]
                        if r.get("ak") == "closure":
                            out.add(r["def"])
                        elif r.get("k") in ("use", "ref", "cast"):
                            work += [x for x in walkraw({k: v for k, v in r.items() if k != "k"}) if "p" in x or "fnr" in x]
                            if r.get("k") == "ref":
                                work.append({"p": r.get("p")})
    return out


@rule("C09", ("all", "nodefault"))
def ambient(c):
    """no function of the crate draws entropy, walks a hash table, or looks at addresses, threads, the environment or the date"""
    n = 0
    for p, b in bodies(c).items():
        for t, path, r in calls_of(b):
            n += 1
            text = path + " " + (r.get("res") or "")
            bad = AMBIENT.search(text)
            if bad is None and leafname(path) in HASH_WALK and t["aty"] and HASHED.search(t["aty"][0].split("{closure")[0]) and leafname(path) != "fmt":
                bad = HASHED.search(t["aty"][0])
            if bad is None and any(AMBIENT_TYPE.search(str(a)) for a in r.get("args") or ()) and "Hash" not in str(r.get("args")):
                bad = AMBIENT_TYPE.search(str(r.get("args")))
            # the date a checkpoint was made on is only shown
            if bad is None and re.search(r"chrono::(offset::)?(Utc|Local)(>?::now)", text):
                bad = None if stamped(b, t) else re.search(r"now", text)
            if bad:
                c.ob(False, f"ambient:{leafname(path)}", f"calls {path}, which is not a function of problem, parameters and seed", where_raw(b, t))
        for x in walkraw([bb["st"] for bb in b.blocks]):
            if x.get("k") == "cast" and "Expose" in str(x.get("ck")):
                c.ob(False, "ambient:address", "turns an address into a number", p)
            if x.get("k") == "const" and isinstance(x.get("ty"), str) and shared_static(x):
                c.ob(False, "ambient:static", f"uses state shared by the whole process ({x['ty']})", p)
    for p, a in c.prog().adts.items():
        for v in a.get("vars", ()):
            for f in v.get("fields", ()):
                c.ob(not AMBIENT_TYPE.search(str(f.get("ty"))), "ambient:field", f"{short(p)}.{f.get('name')} does not hold an unseeded generator", p)
    c.floor(n, 1500 if c.cfg == "all" else 500, "ambient:calls", "calls of the crate")
    c.ob(True, "ambient", f"{n} calls", "src")


def shared_static(x):
    ty = x["ty"]
    return x.get("item") is None and re.search(r"^&'?\w* ?(mut )?std::sync::(atomic|Mutex|RwLock|OnceLock|LazyLock)|^&std::thread::LocalKey|^\*mut ", ty) is not None


def stamped(b, t):
    """the date goes into a timestamp text and nowhere else"""
    loc, seen = {t["d"]["l"]}, 0
    ok = True
    for _ in range(8):
        grow = set(loc)
        for bb in b.blocks:
            for s in bb["st"]:
                if s.get("r") and any(x.get("l") in loc and "p" in x for x in walkraw(s["r"])):
                    if s["r"].get("ak") == "adt":
                        continue
                    grow.add(s["p"]["l"])
            u = bb["t"]
            if u["k"] == "call" and any(x.get("l") in loc and "p" in x for x in walkraw(u["a"])):
                if u["f"].get("fnr") and leafname(u["f"]["fnr"]["path"]) in ("to_rfc3339", "to_string", "format", "to_rfc3339_opts", "into", "from", "deref", "borrow", "must_use", "new_display", "new"):
                    grow.add(u["d"]["l"])
                else:
                    ok = ok and base(u["dty"]) in ("String", "()")
            if u["k"] == "switch" and any(x.get("l") in loc and "p" in x for x in walkraw(u["o"])):
                ok = False
        if grow == loc:
            break
        loc = grow
    return ok


def base(ty):
    return re.sub(r"<.*", "", ty).split("::")[-1]


@rule("C09", ("all", "rayon"))
def parallel(c):
    """parallel work: only operations whose result does not depend on the schedule, on closures that share nothing that can change"""
    B_ = bodies(c)
    roots, n = {}, 0
    for p, b in B_.items():
        for t, path, r in calls_of(b):
            if not path.startswith("rayon"):
                continue
            nm = leafname(path)
            w = where_raw(b, t)
            n += 1
            if nm in ("current_num_threads", "max_num_threads"):
                continue
            for a in t["a"]:
                for f in source_of(b, a):
                    roots.setdefault(f, w)
            if nm in ORDERED:
                if nm in ("collect", "from_par_iter") and base(t["dty"]) in ("Result", "Option"):
                    same = same_error(c, b, t, B_)
                    c.ob(same, "parallel:error", "which error is returned does not depend on which worker fails first", w)
                elif nm in ("collect", "from_par_iter", "partition"):
                    c.ob(not HASHED.search(t["dty"]), "parallel:collect", "results are gathered in the order of the work", w)
                else:
                    c.ob(True, f"parallel:{nm}", "independent of the schedule", w)
            elif nm in REDUCED:
                c.ob(reduction(b, t, r, B_), f"parallel:{nm}", "the terms are combined by an operation for which neither order nor grouping matters", w)
            else:
                c.ob(False, f"parallel:{nm}", f"{path} is known to give the same result under every schedule", w)
    c.floor(n, 20, "parallel:calls", "parallel operations")
    seen = reach(B_, roots)
    k = 0
    for p, why in seen.items():
        b = B_[p]
        own = None
        for t, path, r in calls_of(b):
            if not SHARED.search(path):
                continue
            k += 1
            nm = leafname(path)
            w = where_raw(b, t)
            if nm in ("new", "default", "from", "clone", "get_mut", "into_inner", "try_unwrap"):
                continue
            if "atomic" in path and nm in ATOMIC_ADD:
                c.ob(unused(b, t["d"]), "parallel:counter", "what a shared counter stood at does not matter to the work", w)
                continue
            if own is None:
                own = [u for x in own_scope(B_, b) if x in seen for u, _, _ in calls_of(B_[x])]
            kind = "Atomic" if "atomic" in path else leafname(re.sub(r"::(<[^>]*>::)?[a-z_]+$", "", path))
            made = any(kind in u["dty"] and not any(kind in y for y in u["aty"]) for u in own)
            c.ob(made, f"parallel:shared", f"work done in parallel does not use {path} on state shared between the workers", w)
        # captured by unique borrow: the compiler allows that for no closure handed to rayon
    c.floor(len(roots), 8, "parallel:closures", "functions run in parallel")
    c.ob(True, "parallel", f"{len(seen)} functions run in parallel, {k} uses of shared state", "src")


def own_scope(B_, b):
    root = b.raw.get("root") or b.path
    return [p for p, x in B_.items() if p == root or x.raw.get("root") == root]


def unused(b, place):
    return not place["p"] and not any(x.get("l") == place["l"] and "p" in x for bb in b.blocks for part in
                                     [[s.get("r") for s in bb["st"] if s.get("r")], bb["t"].get("a"), bb["t"].get("o"), bb["t"].get("c")] for x in walkraw(part)) and place["l"] != 0


def reduction(b, t, r, B_):
    """sum, reduce, fold: of whole numbers, or by minimum and maximum"""
    nm = leafname(t["f"]["fnr"]["path"])
    if nm in ("sum", "product"):
        return t["dty"] in INTS
    fs = set()
    for a in t["a"][1:]:
        fs |= source_of(b, a)
    ops = set()
    for f in fs:
        if f in B_:
            for _, q_, _ in calls_of(B_[f]):
                ops.add(q_)
            if any(s["r"].get("k") == "bin" and "f64" in str(B_[f].raw["locals"][s["p"]["l"]]["ty"]) for bb in B_[f].blocks for s in bb["st"] if s.get("r")):
                return False
        else:
            ops.add(f)
    return all(leafname(o) in ("min", "max", "total_cmp", "cmp", "partial_cmp") for o in ops)


def same_error(c, b, t, B_):
    """every error the workers can return is the same one"""
    ty = t["aty"][0]
    m = re.findall(r"\{closure@([^:]+):(\d+):(\d+)", ty)
    cands = [p for p, x in B_.items() if x.kind.lower().startswith("closure") and p.startswith(b.raw.get("root") or b.path) and any(x.file == f and x.raw["lo"] == int(l) for f, l, _ in m)] if hasattr(b, "file") else []
    if not cands:
        return False
    last = cands
    for p in last:
        A = c.an(p, (), nopanic=True)
        q = Q(A)
        errs = set()
        for f, v, r in returns(A, q):
            e = A.simp(field(field(v, "#Err"), "0"))
            if A.isvar(v, "Err", ["Ok", "Err"]) == 0 or not sat(AND(f, A.isvar(v, "Err", ["Ok", "Err"]))):
                continue
            for g, x in q.cases(e):
                if x != UNDEF and sat(AND(f, g)):
                    errs.add(x)
        if len(errs) > 1 or any(not constant(A, x) for x in errs):
            return False
    return True


def constant(A, t, depth=0):
    n = nd(t)
    if n[0] == "c" or n[0] == "fnitem":
        return True
    if n[0] == "agg":
        return all(constant(A, x, depth + 1) for x in n[4])
    if n[0] == "call" and leafname(n[1]) in ("to_string", "from", "into", "to_owned", "new", "default"):
        return all(constant(A, x, depth + 1) for x in n[2])
    return False


SEEDERS = {"seed_from_u64", "from_seed"}
GENMAKERS = re.compile(r"SeedableRng::(\w+)$")


def roots_of(c, B_):
    """functions that make generators, in themselves or in their closures"""
    out = {}
    for p, b in B_.items():
        for t, path, r in calls_of(b):
            m = GENMAKERS.search(path)
            if m:
                out.setdefault(b.raw.get("root") or p, []).append((m[1], where_raw(b, t)))
    return out


def provenance(c, root, terms, B_, depth=0, keep=()):
    """(ok, where, message) for every seed that terms(A, q) names in function root: what it goes back to, there and in the callers"""
    A = c.an(root, OPQ + tuple(sorted(set(keep) - {root})), nopanic=True)
    q = Q(A)
    fn = c.prog().bodies[root]
    res = []
    for what, t, w in terms(A, q):
        S = Slice(A, q, lambda x: seedsource(A, fn, x))
        S.value(t)
        h = S.run()
        if not h:
            res.append((False, w, f"{what} is not derived from the configured seed: {shown(A.simp(t), 6)[:120]}"))
        for lab in h:
            if lab[0] == "clock":
                res.append((False, w, f"{what} depends on {lab[1]}"))
            elif lab[0] == "arg":
                i, path = lab[1], lab[2]
                up = 0
                if depth < 4:
                    for p, b in B_.items():
                        if not any((r.get("res") or path_) == root or path_ == root for t_, path_, r in calls_of(b)):
                            continue
                        top = b.raw.get("root") or p
                        if top == root:
                            continue
                        up += 1

                        def sub(A2, q2, i=i, path=path):
                            for e in A2.events():
                                if e.path == root or short(e.path) == short(root):
                                    x = e.args[i - 1]
                                    for k in path:
                                        x = A2.simp(project(x, k))
                                    yield f"the seed handed to {short(root)}", x, f"{e.fn} {e.span}"
                        res += provenance(c, top, sub, B_, depth + 1, keep + (root,))
                res.append((True, w, f"{what}: {'.'.join(('argument', str(i)) + path)}, {up} callers"))
            else:
                res.append((True, w, f"{what}: {lab}"))
    return res


OPQ = ("LocalSolver", "CheckpointManager", "Stage1State", "Stage2State", "invoke_callback")


def seedsource(A, fn, x):
    n = nd(x)
    if n[0] == "call":
        nm = leafname(n[1])
        if nm in CLOCKS and ("time" in n[1] or "rayon" in n[1] or "Instant" in n[1]):
            return "clock", n[1]
        if re.search(r"\brand(_core|_chacha)?::", n[1]) and nm not in ("new", "seed_from_u64", "from_seed"):
            return "draw", nm
    comps, y = [], x
    while nd(y)[0] == "fld":
        comps.append(nd(y)[2])
        y = nd(y)[1]
    comps = comps[::-1]
    for i in range(1, fn.argc + 1):
        if y == A.argterm(i):
            ty = str(fn.raw["locals"][i]["ty"])
            if comps and comps[-1] in ("seed", "current_seed"):
                if "OQNLP<" in ty or "ScatterSearch<" in ty:
                    return "setting", ".".join(comps)
                return "arg", i, tuple(comps)
            if not comps and ty in ("u64", "u32", "[u8; 32]"):
                return "arg", i, tuple(comps)
    if comps and comps[-1] in ("seed", "current_seed") and nd(y)[0] == "call":
        return "restored", ".".join(comps)
    return None


def seedcalls(A, q):
    for e in q.calls(*SEEDERS):
        yield "a generator's seed", e.args[0], f"{e.fn} {e.span}"


@rule("C09", ("all", "checkpointing", "nodefault"))
def seeds(c):
    """every generator is made from a seed that goes back to the configured one, or to what a generator so made has drawn"""
    B_ = bodies(c)
    R = roots_of(c, B_)
    n = 0
    for root, made in R.items():
        for nm, w in made:
            c.ob(nm in SEEDERS or nm in ("from_rng", "fork"), "seeds:made", f"generators are made from seeds, not by {nm}", w)
        res = provenance(c, root, seedcalls, B_, 0, tuple(R))
        n += len({w for ok, w, m in res})
        for ok, w, m in res:
            c.ob(ok, "seeds:from", m, w)
    c.floor(n, 3, "seeds:calls", "generators")


TIME = re.compile(r"std::time::|rayon::current_num_threads|rayon::max_num_threads|num_cpus|coarsetime|web_time|quanta")
HIDDEN = ("Stage1State", "Stage2State", "invoke_callback", "start_timer", "mark_stage", "checkpoint_saved", "observers")


def timed(t):
    n = nd(t)
    return "the time" if n[0] == "call" and leafname(n[1]) in ("now", "elapsed", "duration_since") and ("time::" in n[1] or "Instant" in n[1]) else None


def threads(t):
    n = nd(t)
    return "the number of threads" if n[0] == "call" and leafname(n[1]) in ("current_num_threads", "max_num_threads") else None


def saved(t):
    """whether a checkpoint could be written is up to the file system, not to the date in it"""
    n = nd(t)
    return mk("call", "file system", (), "") if n[0] == "call" and leafname(n[1]) in ("save_checkpoint",) else None


STAMPS = ("elapsed_time", "timestamp")


def decisions(A):
    """the atomic conditions of all branches, and where they are"""
    at = {}

    def col(f, v):
        for a in atoms(f):
            if a[0] == "exists":
                col(a[2], v)
            else:
                at.setdefault(a, v)
    alive = A.alive()
    for v in A.flow.order:
        if A.nodes[v].t[0] == "switch" and v in alive:
            for u in A.flow.succ[v]:
                col(A.edge_cond(v, u), v)
    return at


def sinks(c, A):
    """what a run does and leaves behind: [(what, term, where)]"""
    for e in A.events():
        nm = leafname(e.path)
        ef = effect(e)
        if ef is None or nm in ("now", "elapsed", "lock"):
            continue
        for x in ef[1]:
            n = nd(A.simp(x))
            if nm == "save_checkpoint" and n[0] == "agg" and n[3]:
                for f, y in zip(n[3], n[4]):
                    if f not in STAMPS:
                        yield f"the saved {f}", y, e.where()
            else:
                yield f"what {nm} is given", x, e.where()
    fields = [f["name"] for p in c.prog().adts if p.endswith("oqnlp::OQNLP") for f in c.prog().adts[p]["vars"][0]["fields"]]
    for r in A.exits():
        yield "the result", A.ret_at(r), "src/oqnlp.rs run"
        st = A.sout.get(r) or A.sin.get(r)
        for f in fields:
            if f in ("start_time", "observer") or st is None:
                continue
            v = A.read(st, loc(1, f))
            if v != UNDEF:
                yield f"the final {f}", v, "src/oqnlp.rs run"


@rule("C09", ("all", "rayon", "checkpointing", "nodefault"))
def clocks(c):
    """the time only decides whether the time limit is reached, and what durations are shown and kept; nothing else the run does, saves or returns depends on it"""
    R = Run(c, ("LocalSolver", "ScatterSearch", "CheckpointManager") + HIDDEN, nopanic=True)
    A, q = R.A, R.q
    limit = A.simp(field(R.self_, "max_time"))
    memo = {}

    def reads(t):
        t = A.simp(t)
        if t not in memo:
            T = Taint(A, q, timed, saved)
            T.value(t)
            memo[t] = bool(T.run())
        return memo[t]
    k = 0
    for a, v in decisions(A).items():
        ts = [x for x in (a[1:2] if a[0] in ("is", "b", "nan") else a[1:3]) if type(x) is int]
        if a[0] == "is" and nd(a[1])[0] == "next":
            continue
        hit = [x for x in ts if reads(x)]
        if not hit:
            continue
        k += 1
        ok = a[0] == "nan" or a[0] in ("lt", "eq") and any(s == limit for x in ts for g, y in q.cases(x) for s in subterms(A.simp(y)))
        c.ob(ok, "clocks:limit", f"the time decides nothing but whether the time limit is reached, not {A.show_f(B.var(a))[:160]}", where_node(A, v))
    c.floor(k, 1, "clocks:limits", "decisions by the time")
    k = 0
    for what, t, w in sinks(c, A):
        k += 1
        c.ob(not reads(t), "clocks:value", f"{what} does not depend on the time", w)
    c.floor(k, 20, "clocks:values", "values that matter")
    # every clock outside the observers is one of those looked at
    seen = {e.span for e in A.events()}
    n = 0
    for p, b in bodies(c).items():
        if "::observers::" in p or b.raw.get("derived"):
            continue
        for t, path, r in calls_of(b):
            if TIME.search(path) and leafname(path) in CLOCKS:
                n += 1
                c.ob(t.get("fs") in seen or t.get("s") in seen, "clocks:where",
                     f"{path} is used by the run itself only", where_raw(b, t))
    c.floor(n, 2, "clocks:uses", "uses of the clock")


@rule("C09", ("all", "rayon"))
def workers(c):
    """the number of threads decides nothing but how many points a batch takes when the batch size is not set"""
    R = Run(c, ("LocalSolver", "ScatterSearch", "CheckpointManager") + HIDDEN, nopanic=True)
    A, q = R.A, R.q
    sizes = set()
    for e in q.calls("chunks", "chunks_exact"):
        work = [A.simp(e.args[1])]
        while work:
            t = work.pop()
            sizes.add(t)
            n = nd(t)
            if n[0] == "call" and leafname(n[1]) in ("max", "min"):
                work += [A.simp(x) for x in n[2] if nd(x)[0] != "c"]
    asked = [e for e in A.events() if threads(e.ret)]
    S = Taint(A, q, threads, saved, effect, lambda t: t in sizes)
    S.solve()
    for d in S.regions:
        bad = sorted({b[2] for b in S.bad if b[0] == d})
        c.ob(not bad, "workers:branch", "the number of threads decides nothing but the size of a batch" + "".join(": " + x for x in bad), where_node(A, d))
    k = 0
    for what, t, w in sinks(c, A):
        P = Taint(A, q, threads, saved, skip=lambda t: t in sizes)
        P.M, P.T, P._ch, P._c = S.M, S.T, S._ch, S._c
        P.value(t)
        k += 1
        c.ob(not P.run(), "workers:value", f"{what} does not depend on the number of threads", w)
    c.floor(k, 20, "workers:values", "values that matter")
    c.ob(True, "workers", f"{len(asked)} questions for the number of threads, {len(S.regions)} branches on it", "src/oqnlp.rs run")


def where_node(A, v):
    for e in A.events_at.get(v, ()):
        return e.span
    return short(A.nodes[v].ctx.body.path)
