"""Checkpoint files: atomic replacement, names, lookup, clean-up, and errors of every step."""
import ast
from lib import *
from runlib import *
from trace import Trace

CK = ("all", "checkpointing")
# operation -> index of the path argument it changes
MUTATORS = {"std::fs::File::create": 0, "std::fs::File::create_new": 0, "std::fs::write": 0, "std::fs::remove_file": 0, "std::fs::copy": 1,
            "std::fs::hard_link": 1, "std::fs::remove_dir_all": 0, "std::fs::OpenOptions::open": 1, "std::fs::rename": 1,
            "std::fs::set_permissions": 0}


def fsop(e):
    from inline import plain
    return plain(e.path)


def isok(A, t):
    return A.isvar(A.simp(t), "Ok", ["Ok", "Err"])


def handle(A, t, depth=0):
    """calls the file handle t came from: {event return terms}, through mutation and wrapping"""
    out = set()
    if depth > 20:
        return out
    for s in subterms(A.simp(t)):
        n = nd(s)
        if n[0] == "call":
            out.add(s)
        if n[0] == "mut" and n[1] == A.uid:
            info = A.mutinfo[(n[2], n[3])]
            out |= handle(A, info[3], depth + 1)
    return out


@rule("C16", CK)
def atomic_save(c):
    """on every path of a save the checkpoint is only replaced by renaming a completely written and synced file"""
    A = c.an("CheckpointManager::save_checkpoint", ())
    q = Q(A)
    evs = list(A.events())
    where = "src/checkpoint.rs save_checkpoint"
    oks = []
    for f, v, r in returns(A, q):
        if nd(v)[0] == "agg" and nd(v)[2] == "Ok":
            oks.append((f, A.simp(payload(v, "Ok")), r))
    c.need(oks, "ok", "save_checkpoint returns Ok somewhere")
    finals = {p for _, p, _ in oks}
    ren = [e for e in evs if fsop(e) == "std::fs::rename" and A.simp(e.args[1]) in finals]
    c.ob(bool(ren), "rename", "the checkpoint is put in place by a rename onto the path that is returned", where)
    if not ren:
        return
    done = OR(*[isok(A, e.ret) for e in ren])
    for f, p, r in oks:
        c.ob(implies(f, done), "ok:renamed", "a save that reports success has renamed the file into place", where)
    enc = {A.simp(e.ret) for e in evs if plain_leaf(e.path) in ("encode_to_vec", "encode_into_std_write", "to_vec", "serialize")}
    for e in ren:
        src = A.simp(e.args[0])
        c.ob(src not in finals, "temp:other", f"the data is written to another file than the checkpoint: {shown(src, 4)}", e.where())
        w = call_of(src, "with_extension")
        ext = pieces(A, w[1]) if w is not None and A.simp(w[0]) in finals else None
        if ext and all(isinstance(x, str) for x in ext):
            for g, d, ps in file_of(A, q, w[0]):
                last = ps[-1] if ps and isinstance(ps[-1], str) else None
                if last is not None and "." in last:
                    c.ob(last.rsplit(".", 1)[1] != "".join(ext), "temp:extension", f"the temporary file has another extension than the checkpoint {ps}", e.where())
        F = A.guard(e.node)
        made = [x for x in evs if fsop(x) in ("std::fs::File::create", "std::fs::File::create_new", "std::fs::OpenOptions::open", "std::fs::write")
                and A.simp(x.args[MUTATORS[fsop(x)]]) == src]
        wrote = synced = False
        for x in made:
            if fsop(x) == "std::fs::write":
                wrote |= implies(F, isok(A, x.ret)) and data_ok(A, x.args[1], enc)
        hs = {A.simp(x.ret) for x in made}
        reopened = {A.simp(x.ret) for x in evs if fsop(x) == "std::fs::File::open" and A.simp(x.args[0]) == src}
        W = [x for x in evs if plain_leaf(x.path) in ("write_all", "encode_into_std_write") and x.args and handle(A, x.args[0]) & hs]
        part = [x for x in evs if plain_leaf(x.path) == "write" and fsop(x) != "std::fs::write" and x.args and handle(A, x.args[0]) & hs]
        c.ob(not part, "write_all", "the data is written completely, not by a single partial write", part[0].where() if part else "")
        for x in W:
            if implies(F, isok(A, x.ret)):
                good = plain_leaf(x.path) != "write_all" or data_ok(A, x.args[1], enc)
                c.ob(good, "data", f"the complete encoded checkpoint is written: {shown(x.args[1], 4)}", x.where())
                wrote |= good
                if any(plain_leaf(nd(h)[1]) == "new" and "BufWriter" in nd(h)[1] for h in handle(A, x.args[0])):
                    fl = [y for y in evs if plain_leaf(y.path) in ("flush", "into_inner") and implies(F, isok(A, y.ret))]
                    c.ob(bool(fl), "flush", "the buffered data is flushed before the rename", x.where())
        for x in evs:
            if plain_leaf(x.path) in ("sync_all", "sync_data") and handle(A, x.args[0]) & (hs | reopened) and implies(F, isok(A, x.ret)):
                later = all(before(A, w.node, x.node) for w in W)
                synced |= later
        c.ob(wrote, "written", "the rename only happens after the data was written to the renamed file", e.where())
        c.ob(synced, "synced", "the rename only happens after the written data was synced to disk", e.where())
    for e in evs:
        op = fsop(e)
        if op not in MUTATORS or e in ren:
            continue
        p = A.simp(e.args[MUTATORS[op]])
        if op == "std::fs::remove_file" and p in {A.simp(x.args[0]) for x in ren}:
            continue        # the temporary file
        if op in ("std::fs::remove_file", "std::fs::remove_dir_all"):
            c.ob(implies(A.guard(e.node), done), "removal", f"nothing is removed before the new checkpoint is in place: {shown(p, 4)}", e.where())
        else:
            c.ob(p not in finals, "in-place", f"{op} does not touch the checkpoint itself: {shown(p, 4)}", e.where())
    for e in evs:
        if fsop(e) == "std::fs::rename":
            c.ob(A.simp(e.args[0]) not in finals, "moved-away", "the checkpoint in place is not moved away before the new one is there", e.where())


def data_ok(A, t, enc):
    t = A.simp(t)
    for nm in ("as_slice", "as_ref", "deref", "borrow"):
        a = call_of(t, nm)
        if a and nd(t)[0] == "call":
            t = A.simp(a[0])
    n = nd(t)
    return n[0] == "fld" and n[2] == "0" and nd(n[1])[0] == "fld" and nd(n[1])[2] == "#Ok" and nd(n[1])[1] in enc


def before(A, a, b):
    """a dominates b"""
    n = b
    while True:
        if n == a:
            return True
        m = A.flow.idom.get(n)
        if m is None or m == n:
            return False
        n = m


@rule("C16", CK)
def run_keeps(c):
    """no part of a run removes or rewrites a checkpoint before a newer one is in place"""
    A = c.an("OQNLP::run", ("LocalSolver", "ScatterSearch", "observers", "target_objective_reached"))
    evs = list(A.events())
    saved = [e for e in evs if fsop(e) == "std::fs::rename"]
    k = 0
    for e in evs:
        op = fsop(e)
        if op in MUTATORS:
            k += 1
        if op in ("std::fs::remove_file", "std::fs::remove_dir_all"):
            ok = any(before(A, s.node, e.node) for s in saved)
            c.ob(ok, "run:removal", f"run() removes a file only after a newer checkpoint is in place", e.where())
    c.floor(k, 2, "run:ops", "file operations of run()")


# ------------------------------------------------------------ C17: names
def pieces(A, t):
    """a string as literal and argument pieces: [str | ('arg', term, options)]"""
    t = A.simp(t)
    n = nd(t)
    if n[0] == "c":
        s = lit(n[1])
        return [s] if s is not None else None
    if n[0] != "call":
        return [("arg", t, None)]
    nm = plain_leaf(n[1])
    if nm == "format" and len(n[2]) == 1:
        return pieces(A, n[2][0])
    if nm in ("to_string", "to_owned", "from", "into", "as_str", "deref", "as_ref", "clone", "must_use", "borrow", "to_str") and len(n[2]) == 1:
        return pieces(A, n[2][0])
    if nm == "from_str" and len(n[2]) == 1 and "Arguments" in n[1]:
        return pieces(A, n[2][0])
    if nm == "new" and "Arguments" in n[1] and len(n[2]) == 2:
        return template(A, n[2][0], n[2][1])
    return [("arg", t, None)]


def lit(x):
    """a string or byte string constant"""
    x = str(x)
    for p in ("const ",):
        if x.startswith(p):
            x = x[len(p):]
    try:
        v = ast.literal_eval(x) if x.startswith(("b\"", "\"")) else None
    except (SyntaxError, ValueError):
        return None
    return v


def template(A, tmpl, args):
    b = lit(nd(A.simp(tmpl))[1]) if nd(A.simp(tmpl))[0] == "c" else None
    an = nd(A.simp(args))
    if not isinstance(b, bytes) or an[0] != "agg":
        return None
    out, i, k = [], 0, 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(b[i:i + x].decode())
            i += x
        elif x == 0x80:
            ln = b[i] | b[i + 1] << 8
            out.append(b[i + 2:i + 2 + ln].decode())
            i += 2 + ln
        else:
            opt = []
            if x & 1:
                opt.append(("flags", int.from_bytes(b[i:i + 4], "little")))
                i += 4
            for bit, nm in ((2, "width"), (4, "precision")):
                if x & bit:
                    opt.append((nm, int.from_bytes(b[i:i + 2], "little")))
                    i += 2
            if x & 8:
                k = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if k >= len(an[4]):
                return None
            a = nd(A.simp(an[4][k]))
            k += 1
            kind = plain_leaf(a[1]) if a[0] == "call" else "?"
            if kind != "new_display":
                opt.append(("kind", kind))
            sub = a[2][0] if a[0] == "call" else None
            sp = pieces(A, sub) if sub is not None and not opt else None
            if sp and len(sp) == 1 and isinstance(sp[0], str):
                out.append(sp[0])
            else:
                out.append(("arg", A.simp(sub) if sub is not None else None, tuple(opt)))
    m = []
    for x in out:
        if isinstance(x, str) and m and isinstance(m[-1], str):
            m[-1] += x
        else:
            m.append(x)
    return m


def named(A, ps):
    """pieces with terms named relative to the first argument"""
    out = []
    for x in ps:
        if isinstance(x, str):
            out.append(x)
        else:
            p = rel_path(A, x[1])
            out.append((p, x[2]))
    return out


def rel_path(A, t):
    names = []
    t = A.simp(t)
    while nd(t)[0] == "fld":
        names.append(nd(t)[2])
        t = nd(t)[1]
    return ".".join(names[::-1]) if t == A.argterm(1) else "arg:" + shown(t, 3)


def file_of(A, q, t):
    """[(guard, directory path, name pieces)] of a path dir.join(name)"""
    out = []
    for g, v in q.cases(t):
        a = nd(A.simp(v))
        if a[0] == "call" and plain_leaf(a[1]) == "join" and len(a[2]) == 2:
            d = rel_path(A, a[2][0])
            for g2, nm in q.cases(a[2][1]):
                ps = pieces(A, nm)
                out.append((AND(g, g2), d, named(A, ps) if ps else None))
        else:
            out.append((g, None, None))
    return out


def keep(A):
    return A.cond(field(arg(A, 1), "config", "keep_all"))


def save_names(c):
    A = c.an("CheckpointManager::save_checkpoint", ())
    q = Q(A)
    res = {True: [], False: []}
    for f, v, r in returns(A, q):
        if nd(v)[0] == "agg" and nd(v)[2] == "Ok":
            for g, d, ps in file_of(A, q, payload(v, "Ok")):
                K = keep(A)
                if sat(AND(f, g, K)):
                    res[True].append((d, ps))
                if sat(AND(f, g, NOT(K))):
                    res[False].append((d, ps))
    return A, res


@rule("C17", CK)
def same_name(c):
    """the single checkpoint is saved to, looked up at and tested under the same path"""
    A, saved = save_names(c)
    c.ob(all(d == "config.checkpoint_dir" for k in saved for d, _ in saved[k]), "dir", f"checkpoints are saved in the configured directory: {saved[True][:1]} {saved[False][:1]}", "src/checkpoint.rs save_checkpoint")
    single = [ps for _, ps in saved[False]]
    c.need(single and all(p == single[0] for p in single), "single-name", "one file name without history")
    for fn, ev, ix in (("load_latest_checkpoint", ("read", "open"), 0), ("checkpoint_exists", ("exists", "is_file", "try_exists"), 0)):
        L = c.an("CheckpointManager::" + fn, ())
        q = Q(L)
        k = 0
        for e in L.events():
            if plain_leaf(e.path) in ev and len(e.args) >= 1 and ("Path" in e.path or "fs" in e.path):
                for g, d, ps in file_of(L, q, e.args[ix]):
                    if not sat(AND(g, L.guard(e.node), NOT(keep(L)))):
                        continue
                    k += 1
                    c.ob(d == "config.checkpoint_dir" and ps == single[0], f"single:{fn}", f"{fn} looks at {d}/{ps}, saved is {single[0]}", e.where())
        c.floor(k, 1, f"single:{fn}:sites", f"path uses in {fn}")
    # with history the lookup decides
    for fn in ("load_latest_checkpoint", "checkpoint_exists"):
        L = c.an("CheckpointManager::" + fn, ("find_latest_checkpoint",))
        es = [e for e in L.events() if plain_leaf(e.path) == "find_latest_checkpoint"]
        if es:
            for e in es:
                c.ob(implies(L.guard(e.node), keep(L)), f"history:{fn}", f"{fn} searches the directory only when history is kept", e.where())
    X = c.an("CheckpointManager::checkpoint_exists", ("find_latest_checkpoint",))
    xq = Q(X)
    f = 0
    found = [e for e in X.events() if plain_leaf(e.path) == "find_latest_checkpoint"]
    ex = [e for e in X.events() if plain_leaf(e.path) in ("exists", "is_file")]
    if len(found) == 1 and len(ex) == 1:
        for r in X.exits():
            for g, v in xq.cases(X.ret_at(r)):
                f = OR(f, AND(X.guard(r), g, X.cond(v)))
        want = OR(AND(keep(X), isok(X, found[0].ret)), AND(NOT(keep(X)), X.cond(ex[0].ret)))
        c.ob(f == want, "exists", "checkpoint_exists is true exactly when the lookup finds a file", "src/checkpoint.rs checkpoint_exists")


def entries(c, A, q, key):
    """how an entry of the directory is recognised: [(parse event, file name term, prefix pieces, suffix)]"""
    out = []
    for e in A.events():
        if plain_leaf(e.path) != "parse":
            continue
        t = A.simp(e.args[0])
        n = nd(t)
        F = A.guard(e.node)
        for h in A.flow.inl[e.node]:
            F = AND(F, A.rel(h, e.node))
        pre = suf = fname = None
        if n[0] == "at" and nd(n[2])[0] == "agg":        # name[a..b]
            fname = n[1]
            lo, hi = nd(n[2])[4][:2]
            a = nd(A.simp(lo))
            if a[0] == "call" and a[1] == "len":
                pre = a[2][0]
            b = nd(A.simp(hi))
            if b[0] == "bin" and b[1] == "Sub" and nd(b[2])[0] == "call" and nd(b[2])[1] == "len" and nd(b[2])[2][0] == fname:
                k = nd(b[3])
                want = int(k[1]) if k[0] == "c" else None
                if k[0] == "call" and k[1] == "len":
                    s_ = pieces(A, k[2][0])
                    want = len(s_[0]) if s_ and isinstance(s_[0], str) else None
            else:
                want = None
            st, en = [], []
            for a_ in atoms(F):
                x = nd(a_[1]) if a_[0] in ("b", "var", "true", "bool") and len(a_) > 1 and isinstance(a_[1], int) else None
                if x and x[0] == "call" and len(x[2]) == 2 and x[2][0] == fname and implies(F, B.var(a_)):
                    if plain_leaf(x[1]) == "starts_with":
                        st.append(x[2][1])
                    if plain_leaf(x[1]) == "ends_with":
                        en.append(x[2][1])
            ok1 = pre is not None and any(A.simp(x) == A.simp(pre) or pieces(A, x) == pieces(A, pre) for x in st)
            c.ob(ok1, key + ":prefix-tested", f"the name starts with the prefix that is cut off: {shown(t, 5)}", e.where())
            sfx = [pieces(A, x) for x in en]
            ok2 = want is not None and any(s and len(s) == 1 and isinstance(s[0], str) and len(s[0]) == want for s in sfx)
            c.ob(ok2, key + ":suffix-tested", f"the name ends with the suffix that is cut off ({want} characters): {sfx}", e.where())
            suf = next((s[0] for s in sfx if s and len(s) == 1 and isinstance(s[0], str) and len(s[0]) == want), None)
        else:
            pre, suf, fname = strip_form(A, t)
            if fname is None:
                continue
        out.append((e, fname, named(A, pieces(A, pre)) if pre is not None and pieces(A, pre) else None, suf))
    return out


def strip_form(A, t):
    """strip_prefix/strip_suffix in either order"""
    pre = suf = None
    for _ in range(2):
        a = call_of(t, "strip_suffix")
        if a is not None:
            s = pieces(A, a[1])
            suf = s[0] if s and len(s) == 1 and isinstance(s[0], str) else None
            t = A.simp(a[0])
            continue
        a = call_of(t, "strip_prefix")
        if a is not None:
            pre = a[1]
            t = A.simp(a[0])
    if pre is None and suf is None:
        return None, None, None
    return pre, suf, t


def split_name(ps):
    """(pieces before the iteration, literal after it) of the history file name"""
    for i, x in enumerate(ps):
        if not isinstance(x, str) and x[0] is not None and x[0].startswith("arg:"):
            return ps[:i], "".join(p for p in ps[i + 1:] if isinstance(p, str)), x
    return None, None, None


@rule("C17", CK)
def history(c):
    """with history, lookup and clean-up recognise exactly the names the saving side writes; the lookup takes the highest iteration and the clean-up
    removes only beyond the newest keep_count"""
    SA, saved = save_names(c)
    hist = [ps for _, ps in saved[True]]
    c.need(hist and all(p == hist[0] for p in hist) and hist[0], "history-name", "one file name with history")
    pre, suf, it = split_name(hist[0])
    c.ob(it is not None and suf is not None, "iteration", f"the name contains the iteration: {hist[0]}", "src/checkpoint.rs save_checkpoint")
    if it is None:
        return
    c.ob(it[0] == "arg:" + shown(SA.argterm(3), 3), "iteration:arg", f"the number in the name is the iteration saved: {it}", "src/checkpoint.rs save_checkpoint")
    c.ob(not it[1] or all(o[0] in ("flags", "width") for o in it[1]), "iteration:decimal", f"the iteration is written as a decimal number: {it}", "src/checkpoint.rs save_checkpoint")
    for fn in ("find_latest_checkpoint", "cleanup_old_checkpoints"):
        A = c.an("CheckpointManager::" + fn, ())
        q = Q(A)
        es = entries(c, A, q, fn)
        for e, fname, p, s in es:
            c.ob(p == pre, f"{fn}:prefix", f"{fn} recognises names starting with {p}, saved are {pre}", e.where())
            c.ob(s == suf, f"{fn}:suffix", f"{fn} recognises names ending with {s!r}, saved are {suf!r}", e.where())
            m = A.simp(e.ret)
            ty = str(e.t.get("dty"))
            c.ob("usize" in ty or "u64" in ty or "u128" in ty, f"{fn}:number", f"the iteration is read back as a whole number: {ty[:60]}", e.where())
        for e in A.events():
            if plain_leaf(e.path) == "read_dir":
                c.ob(rel_path(A, e.args[0]) == "config.checkpoint_dir", f"{fn}:dir", "the configured directory is searched", e.where())
    latest(c)
    cleanup(c)


def latest(c):
    A = c.an("CheckpointManager::find_latest_checkpoint", ())
    q = Q(A)
    ps = [e for e in A.events() if plain_leaf(e.path) == "parse"]
    if len(ps) != 1 or not A.flow.inl[ps[0].node]:
        return
    e = ps[0]
    h = A.flow.inl[e.node][-1]
    num = A.simp(payload(e.ret, "Ok"))
    # the loop state that holds the best so far: an Option (or plain) value compared with the parsed number
    R = A.region(h)[1]
    cur = []
    for (nid, l) in A.phis:
        if nid != h:
            continue
        t = mk("phi", A.uid, h, l)
        ops = {A.simp(v) for u, v in A.phis[(nid, l)].items()}
        vals = set()
        for p in A.flow.pred[h]:
            if (p, h) in A.flow.back:
                for g, v in q.cases(A.read(A.sout[p], l)):
                    f = AND(R.get((p, h), 0), g)
                    if f != 0:
                        vals.add((f, A.simp(v)))
        if any(strip1(A, v) == num for f, v in vals):
            cur.append((t, l, vals))
    if len(cur) != 1:
        return
    t, l, vals = cur[0]
    opt = any(nd(v)[0] == "agg" and nd(v)[2] == "Some" for f, v in vals)
    old = payload(t) if opt else t
    ok = True
    for f, v in vals:
        if strip1(A, v) == num:
            want = gt(num, A.simp(old))
            if opt:
                want = OR(want, NOT(some(A, t)), geq(num, A.simp(old)))
            else:
                want = OR(want, geq(num, A.simp(old)))
            c.ob(implies(f, want), "latest:greater", "a file replaces the one found so far only if its iteration is higher", e.where())
        elif v == t:
            F = AND(f, isok(A, e.ret))
            if opt:
                c.ob(not sat(AND(F, entryseen(A, h, e), NOT(some(A, t)))), "latest:first", "the first checkpoint found is taken", e.where())
                F = AND(F, some(A, t))
            c.ob(not sat(AND(F, entryseen(A, h, e), gt(num, A.simp(old)))), "latest:kept", "a file with a higher iteration is never passed over", e.where())
    # the path goes with it
    dp = [A.simp(x.ret) for x in A.events() if plain_leaf(x.path) == "path" and "DirEntry" in x.path]
    for (nid, l2) in A.phis:
        if nid != h or l2 == l:
            continue
        t2 = mk("phi", A.uid, h, l2)
        for p in A.flow.pred[h]:
            if (p, h) in A.flow.back:
                for g, v in q.cases(A.read(A.sout[p], l2)):
                    f = AND(R.get((p, h), 0), g)
                    v = A.simp(v)
                    if f != 0 and strip1(A, v) in dp:
                        take = OR(*[ff for ff, vv in vals if strip1(A, vv) == num])
                        c.ob(implies(f, take), "latest:path", "the path found goes with the highest iteration", e.where())
                    elif f != 0 and v == t2 and any(strip1(A, A.simp(A.read(A.sout[p2], l2))) in dp for p2 in A.flow.pred[h] if (p2, h) in A.flow.back):
                        take = OR(*[ff for ff, vv in vals if strip1(A, vv) == num])
                        c.ob(not sat(AND(f, take)), "latest:path", "the path found goes with the highest iteration", e.where())


def entryseen(A, h, e):
    return A.rel(h, e.node) if h in A.flow.inl[e.node] else 1


def strip1(A, v):
    n = nd(v)
    return A.simp(n[4][0]) if n[0] == "agg" and n[2] == "Some" and len(n[4]) == 1 else v


def gt(a, b):
    """a > b for integers, in the engine's encoding"""
    eq = B.var(("eq",) + tuple(sorted((a, b))) + ("i",))
    if b < a:
        return AND(NOT(eq), B.var(("lt", b, a, "i")))
    return AND(NOT(eq), NOT(B.var(("lt", a, b, "i"))))


def geq(a, b):
    return OR(gt(a, b), B.var(("eq",) + tuple(sorted((a, b))) + ("i",)))


def cleanup(c):
    from r_scatter import order_of
    A = c.an("CheckpointManager::cleanup_old_checkpoints", ())
    q = Q(A)
    keepc = A.argterm(2)
    rm = [e for e in A.events() if fsop(e) == "std::fs::remove_file"]
    c.floor(len(rm), 1, "cleanup:removes", "removals in the clean-up")
    for e in rm:
        G = A.guard(e.node)
        c.ob(implies(G, keep(A)), "cleanup:history", "files are removed only when history is kept", e.where())
        acc, comps, full = q.access(A.simp(e.args[0]))
        if acc is None:
            continue
        d = nd(acc)[1] if nd(acc)[0] in ("elem", "at") else None
        n = nd(d) if d is not None else None
        if n is None:
            continue
        rev = take = False
        skip_ok = None
        base = d
        while n[0] == "agg" and n[1].startswith("models::"):
            if n[1] == "models::Skip":
                skip_ok = A.simp(n[4][1]) == keepc
            elif n[1] == "models::Rev":     # before the newest are left out (the order of what remains does not matter)
                rev = not rev if skip_ok is not None or take else rev
            elif n[1] == "models::Take":
                take = A.simp(n[4][1])
            base = A.simp(n[4][0])
            n = nd(base)
        if n[0] == "at" and nd(n[2])[0] == "agg" and nd(n[2])[1].endswith("RangeFrom"):
            base = A.simp(n[1])
            k = A.simp(nd(n[2])[4][0])
            least = call_of(k, "min")
            skip_ok = k == keepc or least is not None and set(map(A.simp, least)) == {keepc, A.simp(mk("call", "len", (base,), ""))}
            n = nd(base)
        ordering = [x for x in A.events() if plain_leaf(x.path).startswith(("sort", "select_nth", "max", "min", "cmp", "partial_cmp")) or "BTree" in x.path or "BinaryHeap" in x.path]
        if skip_ok is not None:
            c.ob(bool(ordering), "cleanup:ordered", "the files are ordered before the newest are left out", e.where())
        if n[0] != "mut" or n[1] != A.uid:
            continue
        info = A.mutinfo[(n[2], n[3])]
        sorts = plain_leaf(info[1])
        if not sorts.startswith("sort"):
            continue
        asc = None
        if sorts in ("sort", "sort_unstable"):
            comp, asc = ("0",), True
        else:
            o = order_of(c, info[2][1] if not isinstance(info[2][1], str) else None)
            if o is None:
                continue
            comp, asc = o
        els = [A.simp(unchain(x, list(comp)[::-1])) for x, p in q.elems(info[3]) if x != UNDEF]
        nums = {A.simp(payload(x.ret, "Ok")) for x in A.events() if plain_leaf(x.path) == "parse"}
        c.ob(bool(els) and all(x in nums for x in els), "cleanup:by-iteration", f"the files are ordered by the iteration read from their names: {shown(els[0], 4) if els else ''}", e.where())
        if skip_ok is not None:
            c.ob(skip_ok, "cleanup:count", f"the newest keep_count files are kept: {shown(d, 4)}", e.where())
            c.ob(asc is not None and asc == rev, "cleanup:oldest", "the files kept are those with the highest iterations", e.where())
        elif take:
            c.ob(asc is not None and asc != rev, "cleanup:oldest", "the files removed are those with the lowest iterations", e.where())


# ------------------------------------------------------------ C18: errors
FALLIBLE_SKIP = ("parse", "to_str", "strip_prefix", "find_latest_checkpoint")


def fallible(A):
    for e in A.events():
        ty = str(e.t.get("dty", ""))
        if ty.startswith(("std::result::Result<", "core::result::Result<")) and "std::num::Parse" not in ty and plain_leaf(e.path) != "parse":
            yield e
        elif plain_leaf(e.path) == "next" and "ReadDir" in str(e.aty[:1]):
            yield e


@rule("C18", CK)
def errors_files(c):
    """every fallible step of saving, loading, listing and cleaning up makes the operation return an error"""
    fns = ["CheckpointManager::new", "CheckpointManager::save_checkpoint", "CheckpointManager::load_latest_checkpoint",
           "CheckpointManager::load_checkpoint_from_path", "CheckpointManager::cleanup_old_checkpoints", "checkpoint::read_checkpoint_file"]
    k = 0
    for fn in fns:
        A = c.an(fn, ())
        k += follow_errors(c, A, fn.rsplit("::", 1)[-1])
    c.floor(k, 8, "steps", "fallible steps")


@rule("C18", CK)
def errors_driver(c):
    """the optimiser passes checkpoint errors on"""
    k = 0
    for fn in ("OQNLP::<P>::with_checkpointing", "OQNLP::<P>::try_resume_from_checkpoint", "OQNLP::<P>::resume_with_modified_params",
               "OQNLP::<P>::resume_from_checkpoint_with_params"):
        A = c.an(fn, ("CheckpointManager", "ScatterSearch", "LocalSolver"))
        k += follow_errors(c, A, fn.rsplit("::", 1)[-1], "CheckpointManager")
    R = Run(c)
    k += follow_errors(c, R.A, "run", "CheckpointManager")
    c.floor(k, 5, "driver", "checkpoint operations of the optimiser")


def follow_errors(c, A, name, only=None):
    T = Trace(A)
    k = 0
    for e in fallible(A):
        if only and only not in e.path or plain_leaf(e.path) in FALLIBLE_SKIP:
            continue
        if A.guard(e.node) == 0:
            continue
        k += 1
        known = {e.ret: "Err"}
        if plain_leaf(e.path) == "next":
            known = {e.ret: "Some", A.simp(payload(e.ret)): "Err", payload(e.ret): "Err"}
        try:
            nodes, exits = T.follow([(e.node, s) for s in A.flow.succ[e.node] if (e.node, s) in A.feas], known)
        except RuntimeError:
            continue
        if plain_leaf(e.path) == "next":
            c.ob(e.node not in nodes, f"{name}:next:stops", f"{name} reads no further entries after one that could not be read", e.where())
        bad = [v for n, v in exits if not (nd(v)[0] == "agg" and nd(v)[2] == "Err") and not (v in known or A.simp(v) in known)]
        c.ob(not bad, f"{name}:{plain_leaf(e.path)}", f"{name} returns an error when {plain_leaf(e.path)} fails; it may return {shown(bad[0], 4) if bad else ''}", e.where())
    return k
