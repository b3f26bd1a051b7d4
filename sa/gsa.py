"""Value analysis of an inlined entry: every place read gets a value term (gated-SSA style: joins
become phi terms, mutable references are tracked as locations, shared references are transparent)
and every node / edge gets its path condition as a BDD over comparison and variant atoms."""
import itertools
from graph import Flow
from inline import Inliner, strip_ref, base_ty
from terms import (mk, nd, const, agg, project, binop, B, UNDEF, TRUE, FALSE, UNIT, is_const, shown, showloc, short,
                   children, subterms)

_uid = itertools.count()

IMPURE = ("std::time::", "std::fs::", "std::env::", "std::sync::", "std::thread::", "rand::", "chrono::", "std::io::",
          "models::pick_first", "std::cell::", "std::process::")
PUREX = ("std::time::Duration::",)


# named constants a constant of the crate may stand for
NAMED = {"inf": "INFINITY", "nan": "NAN", "2.220446049250313e-16": "EPSILON", "-inf": "NEG_INFINITY", "1.7976931348623157e+308": "MAX"}


class Event:
    __slots__ = ("node", "fn", "path", "args", "raw", "ret", "span", "ctx", "muts", "t", "aty")

    def where(self):
        c = self.ctx.user()
        return f"{self.span} in {short(c.body.path)}"

    def __repr__(self):
        return f"<{short(self.path)}({', '.join(shown(a, 4) for a in self.args)}) n{self.node}>"


class Write:
    __slots__ = ("node", "loc", "val", "span", "ctx", "old")


def sccs(nodes, succ):
    """strongly connected components, callees first (iterative Tarjan)"""
    nodes = list(nodes)
    inset = set(nodes)
    index, low, on, stack, out = {}, {}, set(), [], []
    for r in nodes:
        if r in index:
            continue
        work = [(r, iter([x for x in succ(r) if x in inset]))]
        index[r] = low[r] = len(index)
        stack.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = len(index)
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter([x for x in succ(w) if x in inset])))
                    break
                elif w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out


# accessors of the trusted back ends that hand out a field
GETTERS = {"argmin::core::State::get_best_param": "best_param", "argmin::core::State::get_best_cost": "best_cost"}


class Analysis:
    def __init__(self, prog, entry, opaque=(), keep=(), nopanic=False, **kw):
        self.nopanic, self._alive = nopanic, None    # nopanic: conditions do not record that a panic was avoided
        self._fixed = {}
        self.keep = keep        # opaque calls taken to leave what they are given unchanged
        self.uid = next(_uid)
        self.prog = prog
        self.inl = Inliner(prog, entry, opaque, **kw)
        self.nodes = self.inl.nodes
        # fresh entry so that the entry is never a loop header
        n = self.inl.new(self.inl.ctx0)
        n.t = ("goto", self.inl.entry)
        n.succ = [self.inl.entry]
        self.entry = n.id
        self.merge_headers()
        self.cfg = Flow(self.entry, lambda i: self.nodes[i].succ, None)
        self.depth = {i: len(self.cfg.inl[i]) for i in self.cfg.order}
        self.classify_locals()
        self.phis = {}          # (node, loc) -> {pred: term}
        self.env = {}
        self.uses = {}
        self.curn = None
        self.mutinfo = {}
        self.pre = {}
        self.run()
        if any(not isinstance(x, str) for _, k in self.phis for x in k[1:]):
            # element locations are named by their index: a second pass knows the loop phis from the start, so that an
            # index has one name in every pass of a loop
            for nid, k in self.phis:
                if nid in self.cfg.loops:
                    self.pre.setdefault(nid, set()).add(k)
            self.phis, self.env, self.uses, self.mutinfo = {}, {}, {}, {}
            self.run()
        self.flow = Flow(self.entry, lambda i: [s for s in self.nodes[i].succ if (i, s) in self.feas], None)
        self._cond = {}
        self._prop = {}
        self._loopsum = {}
        self._res = {}
        self._phirep = None
        self._edge = {}
        self.loopinfo = {}

    # ---- CFG normalisation -------------------------------------------------
    def merge_headers(self):
        nodes = self.nodes
        while True:
            fl = Flow(self.entry, lambda i: nodes[i].succ, None)
            done = False
            for L in fl.loops:
                outs = [h for h in fl.inl[L] if h != L]
                if not outs:
                    continue
                H = outs[0]
                chain, x, ok = [], H, True
                while x != L:
                    chain.append(x)
                    if len(fl.succ[x]) != 1 or nodes[x].t[0] != "goto":
                        ok = False
                        break
                    for (dst, rv, _) in nodes[x].st:
                        if dst[1] or rv[0] not in ("ref", "use") or len(self.inl.defs.get(dst[0], [])) != 1:
                            ok = False
                    x = fl.succ[x][0]
                    if not ok or len(chain) > 60:
                        ok = False
                        break
                    if x != L and any((p, x) not in fl.back and p != chain[-1] for p in fl.pred[x]):
                        ok = False
                        break
                if not ok:
                    continue
                pl = [p for p in fl.pred[L] if (p, L) not in fl.back]
                if pl != [chain[-1]]:
                    continue
                for p in [p for p in fl.pred[L] if (p, L) in fl.back]:
                    n = nodes[p]
                    n.t = retgt(n.t, L, H)
                    n.succ = [H if s == L else s for s in n.succ]
                done = True
                break
            if not done:
                return

    def classify_locals(self):
        """locals that need flow-sensitive storage"""
        inl = self.inl
        mutb = set()
        for i in self.cfg.order:
            for (dst, rv, _) in self.nodes[i].st:
                if rv[0] == "ref" and rv[1] and not any(e[0] == "*" for e in rv[2][1]):
                    mutb.add(rv[2][0])
        self.ssa = set()
        argc = inl.entry_body.argc
        for l in range(inl.nlocals):
            nd_ = len(inl.defs.get(l, ())) + (1 if 1 <= l <= argc else 0)
            if nd_ <= 1 and l not in mutb and l not in inl.partial:
                self.ssa.add(l)

    # ---- abstract state ----------------------------------------------------
    def read(self, st, loc):
        v = st.get(loc)
        if v is None:
            for k in range(len(loc) - 1, 0, -1):
                p = st.get(loc[:k])
                if p is not None:
                    v = p
                    rest = loc[k:]
                    break
            else:
                v = self.initial(loc[0])
                rest = loc[1:]
            for c in rest:
                v = project(v, c)
        kids = st.get(("kids", loc))
        if kids:
            for sub in sorted(kids, key=lambda s: (len(s), str(s))):
                if sub in st:
                    v = self.upd(v, sub[len(loc):], st[sub])
        return v

    def upd(self, base, path, val):
        n = nd(base)
        if n[0] == "agg" and isinstance(path[0], str):
            c = path[0]
            if c.startswith("#"):
                if n[2] == c[1:] and len(path) > 1:
                    return self.upd(base, path[1:], val)
            elif c in n[3]:
                i = n[3].index(c)
                nv = val if len(path) == 1 else self.upd(n[4][i], path[1:], val)
                return agg(n[1], n[2], n[3], n[4][:i] + (nv,) + n[4][i + 1:])
        if n[0] == "upd" and n[2] == path:
            return self.upd(n[1], path, val)
        return mk("upd", base, path, val)

    def initial(self, root):
        if root[0] == "A":
            return self.argterm(root[1])
        if root[0] == "P":
            return root[1]
        l = root[1]
        if 1 <= l <= self.inl.entry_body.argc:
            return self.argval(l)
        return UNDEF

    def argterm(self, i):
        return mk("arg", i, self.inl.ltype[i][1] or f"arg{i}")

    def argval(self, i):
        ty = self.inl.ltype[i][0]
        if ty.startswith("&") and is_mutref(ty):
            return mk("mref", (("A", i),))
        return self.argterm(i)

    def put(self, st, loc, v):
        kids = st.pop(("kids", loc), None)
        if kids:
            for s in kids:
                st.pop(s, None)
                st.pop(("kids", s), None)
        st[loc] = v
        for k in range(1, len(loc)):
            key = ("kids", loc[:k])
            ks = st.get(key)
            if ks is None or loc not in ks:
                st[key] = (ks or frozenset()) | {loc}

    # ---- places ------------------------------------------------------------
    def cursor(self, st, place):
        l, proj = place
        if l in self.ssa:
            argc = self.inl.entry_body.argc
            v = self.env.get(l)
            self.uses.setdefault(l, set()).add(self.curn)
            if v is None:
                v = self.argval(l) if 1 <= l <= argc else UNDEF
            cur = ("v", v)
        else:
            cur = ("l", (("L", l),))
        for e in proj:
            k = e[0]
            if k == "*":
                v = self.ptr(cur[1] if cur[0] == "v" else self.read(st, cur[1]))
                n = nd(v)
                if n[0] == "mref":
                    cur = ("l", n[1])
                elif cur[0] == "v" and (("P", v),) in st:
                    cur = ("l", (("P", v),))
                elif cur[0] == "v" and ("kids", (("P", v),)) in st:
                    cur = ("l", (("P", v),))
                continue
            if k == "f":
                c = e[1]
            elif k == "d":
                c = "#" + e[1]
            elif k == "i":
                c = ("[]", self.rplace(st, (e[1], ())))
            elif k == "ci":
                c = ("[]", const(("end-" + str(e[1])) if e[2] else e[1], "usize"))
            else:
                c = ("sub", str(e))
            if cur[0] == "v" and nd(cur[1])[0] == "mref":
                cur = ("l", nd(cur[1])[1])
            if cur[0] == "l":
                v = None
                # a location that itself holds a mutable reference is followed
                cur = ("l", cur[1] + (c,))
            else:
                cur = ("v", project(cur[1], c))
        return cur

    def ptr(self, v):
        """resolve a pointer value selected out of a join (Option<&mut T> and the like)"""
        if nd(v)[0] not in ("fld", "phi"):
            return v
        comps, x = [], v
        while nd(x)[0] == "fld":
            comps.append(nd(x)[2])
            x = nd(x)[1]
        n = nd(x)
        if n[0] != "phi" or n[1] != self.uid:
            return v
        self.phideps.setdefault((n[2], n[3]), set()).add(self.curn)
        ops = set()
        for y in self.phis[(n[2], n[3])].values():
            for c in reversed(comps):
                y = project(y, c)
            if y != UNDEF and y != v:
                ops.add(y)
        if len(ops) == 1:
            y = next(iter(ops))
            return y if nd(y)[0] == "mref" else (self.ptr(y) if nd(y)[0] in ("fld", "phi") else v)
        return v

    def rplace(self, st, place):
        c = self.cursor(st, place)
        return c[1] if c[0] == "v" else self.read(st, c[1])

    def wplace(self, st, place, v, n=None, span=None):
        l, proj = place
        if not proj and l in self.ssa:
            if self.env.get(l) != v:
                self.env[l] = v
                self.chgl.append(l)
            return
        c = self.cursor(st, place)
        if c[0] == "v":
            # write through an opaque pointer
            l, proj = place
            # locate the pointer: longest prefix ending in a deref
            k = max((i for i, e in enumerate(proj) if e[0] == "*"), default=None)
            if k is None:
                return
            ptr = self.rplace(st, (l, proj[:k]))
            loc = (("P", ptr),) + tuple(self.comp(st, e) for e in proj[k + 1:])
        else:
            loc = c[1]
        self.put(st, loc, v)
        if n is not None and loc[0][0] != "L":
            w = Write()
            w.node, w.loc, w.val, w.span, w.ctx = n.id, loc, v, span, n.ctx
            self.curw.append(w)

    def comp(self, st, e):
        if e[0] == "f":
            return e[1]
        if e[0] == "d":
            return "#" + e[1]
        if e[0] == "i":
            return ("[]", self.rplace(st, (e[1], ())))
        return ("[]", const(str(e), "usize"))

    def operand(self, st, o):
        if o[0] == "const":
            k = o[1]
            if "fn" in k:
                return mk("fnitem", (k.get("fnr") or {}).get("res") or k["fn"])
            if "n" in k:
                return const(k["n"], k["ty"])
            if "item" in k:
                return mk("c", "item:" + k["item"], k["ty"])
            v = k["v"]
            if k["ty"] in ("f64", "f32"):
                v = v.replace("const ", "").replace("f64", "").replace("_", "")
                try:
                    v = repr(float(v))
                except ValueError:
                    pass
                if k["ty"] == "f64" and v in NAMED:
                    return mk("c", "item:core::f64::<impl f64>::" + NAMED[v], "f64")
            return const(v, k["ty"])
        return self.rplace(st, o[1])

    def rvalue(self, st, rv, n):
        k = rv[0]
        if k == "use":
            return self.operand(st, rv[1])
        if k == "ref":
            c = self.cursor(st, rv[2])
            if rv[1]:
                if c[0] == "l":
                    return mk("mref", c[1])
                # &mut *opaque : reborrow of an opaque pointer
                return c[1]
            v = c[1] if c[0] == "v" else self.read(st, c[1])
            return v
        if k == "bin":
            return binop(rv[1], self.operand(st, rv[2]), self.operand(st, rv[3]), rv[4])
        if k == "un":
            a = self.operand(st, rv[2])
            if rv[1] == "Not":
                if a == TRUE:
                    return FALSE
                if a == FALSE:
                    return TRUE
                na = nd(a)
                if na[0] == "un" and na[1] == "Not":
                    return na[2]
            if rv[1] == "PtrMetadata":
                return mk("call", "len", (a,), "")
            return mk("un", rv[1], a)
        if k == "cast":
            a = self.operand(st, rv[2])
            ck = rv[1]
            if "PointerCoercion" in ck or "PtrToPtr" in ck or "Transmute" in ck or "Subtype" in ck:
                return a
            if nd(a)[0] == "c" and isinstance(nd(a)[1], int) and rv[3] not in ("f64", "f32"):
                return const(nd(a)[1], rv[3])
            return mk("cast", rv[3], a)
        if k == "discr":
            return mk("discr", self.rplace(st, rv[1]), rv[2])
        if k == "agg":
            return agg(rv[1], rv[2], rv[3], [self.operand(st, o) for o in rv[4]])
        if k == "repeat":
            return mk("call", "repeat", (self.operand(st, rv[1]), const(rv[2], "usize")), "")
        return mk("opaque", rv[1] if len(rv) > 1 else "")

    # ---- calls -------------------------------------------------------------
    def dest_type(self, d):
        i = d[0] if isinstance(d, (tuple, list)) else d
        return str(self.inl.ltype[i][0]) if isinstance(i, int) else ""

    def mrefs(self, t, out=None, d=0):
        out = [] if out is None else out
        n = nd(t)
        if n[0] == "mref":
            if n[1] not in out:
                out.append(n[1])
        elif d < 6 and n[0] in ("agg", "upd", "phi#no"):
            for c in children(t):
                self.mrefs(c, out, d + 1)
        return out

    def deref_args(self, st, t, d=0):
        n = nd(t)
        if n[0] == "mref":
            return self.read(st, n[1])
        if n[0] == "agg" and d < 6 and any(nd(c)[0] in ("mref", "agg") for c in n[4]):
            return agg(n[1], n[2], n[3], [self.deref_args(st, c, d + 1) for c in n[4]])
        return t

    def call(self, st, n):
        _, t, args, d, tgt = n.t
        f = t["f"]
        r = f.get("fnr")
        if r:
            path, res = r["path"], r.get("res") or r["path"]
        else:
            path = res = "dyn-call"
        raw = [self.operand(st, a) for a in args]
        vals = [self.deref_args(st, x) for x in raw]
        muts = []
        ret = None
        if path == "models::mem_replace" or path == "std::mem::replace":
            if nd(raw[0])[0] == "mref":
                ret = vals[0]
                loc = nd(raw[0])[1]
                self.put(st, loc, raw[1])
                w = Write()
                w.node, w.loc, w.val, w.span, w.ctx = n.id, loc, raw[1], t["fs"], n.ctx
                self.curw.append(w)
        elif path == "std::mem::swap" and all(nd(x)[0] == "mref" for x in raw):
            self.put(st, nd(raw[0])[1], vals[1])
            self.put(st, nd(raw[1])[1], vals[0])
            ret = UNIT
        elif path in ("std::ops::Index::index", "std::slice::SliceIndex#"):
            ret = project(vals[0], ("[]", vals[1]))
        elif path == "std::ops::IndexMut::index_mut":
            if nd(raw[0])[0] == "mref":
                ret = mk("mref", nd(raw[0])[1] + (("[]", vals[1]),))
        elif path == "std::iter::Iterator::next":
            dep = self.depth.get(n.id, 0)
            it = raw[0]
            if nd(it)[0] == "mref":
                it = self.read(st, nd(it)[1])
            if nd(it)[0] == "mref":     # iter_mut / by_ref: elements are places of the collection
                loc = nd(it)[1]
                e = mk("next", it, dep if dep else f"s{n.id}")
                ret = mk("nextm", e, loc)
                el = mk("mref", loc + (("[]", mk("idx", it, dep)),))
                ret = mk("call", "models::nextmut", (mk("next", it, dep if dep else f"s{n.id}"), el), "")
            else:
                ret = mk("next", it, dep if dep else f"s{n.id}")
        elif path == "models::idx_of":
            it = raw[0]
            if nd(it)[0] == "mref":
                it = self.read(st, nd(it)[1])
            ret = mk("idx", it if nd(it)[0] == "mref" else strip_iter(vals[0]), self.depth.get(n.id, 0))
        elif path == "std::vec::Vec::<T, A>::push" and nd(raw[0])[0] == "mref":
            loc = nd(raw[0])[1]
            self.put(st, loc, mk("push", vals[0], raw[1]))
            ret = UNIT
            muts.append(loc)
        elif path.endswith("::len") and len(vals) == 1:
            ret = mk("call", "len", (vals[0],), "")
        elif len(vals) == 1 and path in GETTERS or len(vals) == 1 and "argmin::core::" in path and path.endswith(("::get_best_param", "::get_best_cost")):
            ret = project(vals[0], GETTERS.get(path) or path.rsplit("::get_", 1)[1])
        elif path.endswith("::is_empty") and len(vals) == 1:
            ret = binop("Eq", mk("call", "len", (vals[0],), ""), const(0, "usize"), "usize")
        elif path.endswith("::contains") and len(vals) == 2 and nd(vals[0])[0] in ("agg", "call") and "Range" in str(nd(vals[0])[1]):
            nr = nd(vals[0])
            lo, hi = (nr[4] if nr[0] == "agg" else nr[2])[:2]
            ty = strip_ref(t["aty"][1])
            ret = binop("BitAnd", binop("Le", lo, vals[1], ty), binop("Le" if "Inclusive" in nr[1] else "Lt", vals[1], hi, ty), "bool")
        elif path == "core::f64::<impl f64>::is_nan":
            ret = mk("un", "IsNan", vals[0])
        elif path == "std::boxed::Box::<T>::new_uninit":
            ret = mk("call", "newbox", (), f"{self.uid}.{n.id}")
        elif path == "std::boxed::box_assume_init_into_vec_unsafe":
            ret = self.read(st, (("P", raw[0]), "value", "value"))
        elif path == "models::diverge" or tgt is None:
            ret = UNDEF
        if ret is None:
            locs = []
            for x in raw:
                self.mrefs(x, locs)
            impure = any(path.startswith(p) for p in IMPURE) and not any(path.startswith(p) for p in PUREX)
            dyn = path == "dyn-call"
            site = n.id if (locs or impure or dyn) else ""
            if self.keep and any(x in res for x in self.keep):
                locs = []
            if dyn:
                vals = [self.operand(st, self.inl_op(f, n))] + vals
            tag = f"{self.uid}.{site}" if site != "" else ""
            if path.startswith("pyo3::") and site == "" and path.rsplit("::", 1)[-1].startswith(("cast", "downcast", "extract")):
                tag = self.dest_type(d)       # what is cast to is part of what the call means
            ret = mk("call", res, tuple(vals), tag)
            for k, loc in enumerate(locs):
                old = self.read(st, loc)
                m = mk("mut", self.uid, n.id, k)
                self.mutinfo[(n.id, k)] = (res, path, tuple(vals), old, loc)
                self.put(st, loc, m)
                muts.append(loc)
        ev = Event()
        ev.node, ev.fn, ev.path, ev.args, ev.raw, ev.ret = n.id, res, path, vals, raw, ret
        ev.span, ev.ctx, ev.muts, ev.t, ev.aty = t["fs"], n.ctx, muts, t, t["aty"]
        self.curev.append(ev)
        if tgt is not None:
            self.wplace(st, d, ret, n, t["fs"])

    def inl_op(self, f, n):
        return self.inl.op(f, n.ctx.base)

    # ---- fixpoint ----------------------------------------------------------
    def run(self):
        order = self.cfg.order
        pos = {n: i for i, n in enumerate(order)}
        self.feas = set()
        self.sin, self.sout = {}, {}
        self.events_at, self.writes_at = {}, {}
        import heapq
        work = [0]
        inw = {0}
        visited = set()
        iters = 0
        self.force = set()
        self.uses = {}
        self.phideps = {}
        self.repush = []
        if True:
            while work:
                i = heapq.heappop(work)
                inw.discard(i)
                nid = order[i]
                iters += 1
                if iters > 400 * len(order):
                    raise RuntimeError("no fixpoint: " + self.inl.entry_body.path)
                st = self.join(nid)
                while self.repush:
                    u = self.repush.pop()
                    if u is not None and pos[u] not in inw and u != nid:
                        heapq.heappush(work, pos[u])
                        inw.add(pos[u])
                if nid in visited and st == self.sin.get(nid) and not self.dirty(nid):
                    continue
                first = nid not in visited
                visited.add(nid)
                self.sin[nid] = st
                out = dict(st)
                n = self.nodes[nid]
                self.curev, self.curw = [], []
                self.curn = nid
                self.chgl = []
                for (dst, rv, span) in n.st:
                    self.wplace(out, dst, self.rvalue(out, rv, n), n, span)
                tgts = []
                k = n.t[0]
                if k == "call":
                    self.call(out, n)
                    tgts = n.succ
                elif k == "switch":
                    v = self.operand(out, n.t[1])
                    n_sw = self.switch_targets(n, v)
                    tgts = n_sw
                else:
                    tgts = n.succ
                self.events_at[nid], self.writes_at[nid] = self.curev, self.curw
                # frame exit: forget the callee's locals
                if k == "goto":
                    tn = self.nodes[n.t[1]]
                    if tn.ctx is n.ctx.parent and n.ctx.parent is not None:
                        lo = n.ctx.base
                        hi = lo + len(n.ctx.body.locals)
                        for key in [q for q in out if (q[0] == "kids" and q[1][0][0] == "L" and lo <= q[1][0][1] < hi) or
                                    (q[0] != "kids" and q[0][0] == "L" and lo <= q[0][1] < hi)]:
                            del out[key]
                chg = self.sout.get(nid) != out
                for l in self.chgl:
                    for u in self.uses.get(l, ()):
                        if u in visited and u != nid:
                            self.force.add(u)
                            if pos[u] not in inw:
                                heapq.heappush(work, pos[u])
                                inw.add(pos[u])
                self.sout[nid] = out
                for s in tgts:
                    newe = (nid, s) not in self.feas
                    self.feas.add((nid, s))
                    if (newe or chg) and pos[s] not in inw:
                        heapq.heappush(work, pos[s])
                        inw.add(pos[s])

    def dirty(self, nid):
        if nid in self.force:
            self.force.discard(nid)
            return True
        return False

    def switch_targets(self, n, v):
        x = nd(v)
        arms, els = n.t[3], n.t[4]
        val = None
        if x[0] == "c" and isinstance(x[1], int):
            val = x[1]
        elif x[0] == "discr":
            y = nd(x[1])
            if y[0] == "agg":
                for dv, name in x[2]:
                    if name == y[2]:
                        val = dv
        if val is None:
            return n.succ
        for a, t in arms:
            if a == val:
                return [t]
        return [els]

    def join(self, nid):
        preds = [p for p in self.cfg.pred[nid] if (p, nid) in self.feas]
        if not preds:
            return {}
        pre = self.pre.get(nid, ())
        if len(preds) == 1 and not pre:
            return self.sout[preds[0]]
        outs = [self.sout[p] for p in preds]
        keys = set()
        for o in outs:
            keys.update(k for k in o if k[0] != "kids")
        # values valid only where defined on all paths or reconstructible
        res = {}
        for k in sorted(keys, key=lambda k: (len(k), str(k))):
            vs = [self.base_at(o, k) for o in outs]
            ph = self.phis.get((nid, k))
            if ph is None and k not in pre and all(v == vs[0] for v in vs):
                self.put(res, k, vs[0])
                continue
            if ph is None:
                ph = self.phis[(nid, k)] = {}
            for p, v in zip(preds, vs):
                if ph.get(p) != v:
                    ph[p] = v
                    for u in self.phideps.get((nid, k), ()):
                        self.force.add(u)
                        self.repush.append(u)
            self.put(res, k, mk("phi", self.uid, nid, k))
        return res

    def base_at(self, st, loc):
        v = st.get(loc)
        if v is not None:
            return v
        for k in range(len(loc) - 1, 0, -1):
            p = st.get(loc[:k])
            if p is not None:
                v = p
                rest = loc[k:]
                break
        else:
            v = self.initial(loc[0])
            rest = loc[1:]
        for c in rest:
            v = project(v, c)
        return v

    # ---- post-analysis -----------------------------------------------------
    def phi_ops(self, t):
        n = nd(t)
        if n[0] == "phi" and n[1] == self.uid:
            return {p: v for p, v in self.phis[(n[2], n[3])].items() if (p, n[2]) in self.feas}
        return {}

    def phireps(self):
        """phi -> the single value that flows into its strongly connected web of phis (redundant phis)"""
        if self._phirep is not None:
            return self._phirep
        rep = self._phirep = {}
        uid = self.uid
        allphi = []
        for (nid, k) in self.phis:
            allphi.append(mk("phi", uid, nid, k))
        ops = {}
        for t in allphi:
            ops[t] = [v for v in self.phi_ops(t).values() if v != UNDEF]

        def find(v):
            while True:
                w = rep.get(v)
                if w is None:
                    return v
                v = w

        def process(group, ops_of):
            for scc in sccs(group, ops_of):
                inn = set(scc)
                ext = set()
                outer = set()
                for t in scc:
                    for v in ops_of(t):
                        v = find(v)
                        if v not in inn:
                            ext.add(v)
                            outer.add(t)
                if len(ext) == 1:
                    e = next(iter(ext))
                    for t in scc:
                        rep[t] = e
                elif len(ext) > 1 and len(scc) > 1:
                    inner = [t for t in scc if t not in outer]
                    if inner:
                        process(inner, ops_of)
        process(allphi, lambda t: [find(v) for v in ops.get(t, ())])
        return rep

    def simp(self, t, depth=0):
        """remove redundant phis and push projections through phis / aggregates"""
        r = self._res.get(t)
        if r is not None:
            return r
        self._res[t] = t
        n = nd(t)
        k = n[0]
        out = t
        if k == "phi" and n[1] == self.uid:
            rep = self.phireps()
            out = rep.get(t, t)
            if out != t:
                out = self.simp(out)
            else:
                direct = set()
                for v in self.phi_ops(t).values():
                    s = self.simp(v)
                    if s != t and s != UNDEF:
                        direct.add(s)
                if len(direct) == 1:
                    out = next(iter(direct))
            if out == t and n[2] in self.flow.loops:
                dom = self.induction(n[2], t)
                d2 = self.sumsq(n[2], t) if dom is None else None
                if d2 is not None:
                    out = d2
                elif dom is not None:
                    out = canon_iter("elem", dom, len(self.flow.inl[n[2]]))
        elif k == "fld":
            b = self.simp(n[1])
            nb = nd(b)
            if nb[0] == "phi" and nb[1] == self.uid and nb[2] not in self.flow.loops:
                ops = set()
                for v in self.phi_ops(b).values():
                    s = self.simp(project(self.simp(v), n[2]))
                    if s != UNDEF:
                        ops.add(s)
                if len(ops) == 1:
                    out = next(iter(ops))
                else:
                    out = project(b, n[2])
            else:
                out = project(b, n[2])
                if out != t:
                    out = self.simp(out)
        elif k == "at":
            v, i = self.simp(n[1]), self.simp(n[2])
            ni = nd(i)
            out = mk("elem", v, ni[2]) if ni[0] == "idx" and ni[1] == v else project(v, ("[]", i))
        elif k == "bin":
            out = binop(n[1], self.simp(n[2]), self.simp(n[3]), n[4])
        elif k in ("un", "cast"):
            out = mk(k, n[1], self.simp(n[2]))
        elif k == "call":
            out = canon_call(n[1], tuple(self.simp(x) for x in n[2]), n[3])
        elif k == "agg":
            out = agg(n[1], n[2], n[3], [self.simp(x) for x in n[4]])
        elif k in ("next", "elem", "nextsome", "idx"):
            out = canon_iter(k, self.simp(n[1]), n[2])
        elif k == "push":
            out = mk("push", self.simp(n[1]), self.simp(n[2]))
        elif k == "discr":
            out = mk("discr", self.simp(n[1]), n[2])
        elif k == "upd":
            out = self.upd(self.simp(n[1]), n[2], self.simp(n[3]))
        self._res[t] = out
        return out

    def sumsq(self, h, t):
        """sum over positions of (a[i] - b[i])^2"""
        ab = None
        for p, v in self.phi_ops(t).items():
            nv = nd(v)
            if (p, h) not in self.flow.back:
                if not (is_const(v) and str(nd(v)[1]) in ("0", "0.0", "0.0f64")):
                    return None
                continue
            if not (nv[0] == "bin" and nv[1] == "Add" and t in nv[2:4]):
                return None
            sq = nd(self.simp(nv[3] if nv[2] == t else nv[2]))
            if not (sq[0] == "bin" and sq[1] == "Mul" and sq[2] == sq[3]):
                return None
            df = nd(sq[2])
            if not (df[0] == "bin" and df[1] == "Sub"):
                return None
            vs, ix = [], set()
            for x in df[2:4]:
                nx = nd(x)
                if nx[0] == "elem":
                    vs.append(nx[1])
                    ix.add(nx[2])
                elif nx[0] == "at" and nd(nx[2])[0] == "idx":
                    vs.append(nx[1])
                    ix.add(nd(nx[2])[2])
                else:
                    return None
            if len(ix) != 1:
                return None
            ab = tuple(sorted(vs))
        return mk("call", "dist2", ab, "") if ab else None

    def induction(self, h, t):
        """t counts 0, 1, .. while t < n is tested at the head of loop h (n invariant): the range 0..n it walks"""
        ops = self.phi_ops(t)
        if not ops or len(ops) < 2:
            return None
        for p, v in ops.items():
            nv = nd(v)
            if (p, h) in self.flow.back:
                if not (nv[0] == "bin" and nv[1] == "Add" and t in nv[2:4]):
                    return None
                o = nv[3] if nv[2] == t else nv[2]
                if not (is_const(o) and nd(o)[1] == 1):
                    return None
            elif not (is_const(v) and nd(v)[1] == 0):
                return None
        u, fuel = h, 12
        while fuel:
            nn = self.nodes[u]
            if nn.t[0] == "switch":
                break
            nx = [s for s in nn.succ if (u, s) in self.feas]
            if len(nx) != 1 or nx[0] not in self.flow.loops[h] or nx[0] in self.flow.loops:
                return None
            u = nx[0]
            fuel -= 1
        if not fuel:
            return None
        c = nd(self.operand(self.sout[u], self.nodes[u].t[1]))
        if not (c[0] == "bin" and c[1] in ("Lt", "Ne", "Le") and strip_ref(c[4]).startswith(("u", "i"))):
            return None
        if c[1] == "Lt" and c[2] == t:
            n = c[3]
        elif c[1] == "Le" and c[3] == t:        # while !(n <= i)
            n = c[2]
        elif c[1] == "Ne" and t in c[2:4]:
            n = c[3] if c[2] == t else c[2]
        else:
            return None
        for x in subterms(n):
            nx = nd(x)
            if nx[0] == "phi" and nx[1] == self.uid and nx[2] in self.flow.loops[h]:
                return None
            if nx[0] == "mut" and nx[1] == self.uid and nx[2] in self.flow.loops[h]:
                return None
        self._ind = getattr(self, "_ind", {})
        self._ind[t] = n
        return agg("std::ops::Range", "", ("start", "end"), (const(0, "usize"), self.simp(n)))

    # formulas
    def cond(self, t):
        """BDD of 'boolean term t is true'"""
        r = self._cond.get(t)
        if r is not None:
            return r
        n = nd(t)
        k = n[0]
        if k == "c":
            r = 1 if n[1] in (1, "true", True) else 0
        elif k == "un" and n[1] == "Not":
            r = B.NOT(self.cond(n[2]))
        elif k == "un" and n[1] == "IsNan":
            r = B.var(("nan", self.simp(n[2])))
        elif k == "bin" and n[1] in ("Lt", "Le", "Eq", "Ne"):
            r = None
            for x, y, op in ((n[2], n[3], n[1]), (n[3], n[2], n[1])):
                if nd(x)[0] == "phi" and nd(x)[1] == self.uid and self.simp(x) != x and getattr(self, "_ind", {}).get(x) == y:
                    dom = self.induction(nd(x)[2], x)
                    v = self.isvar(canon_iter("next", dom, len(self.flow.inl[nd(x)[2]])), "Some", ["None", "Some"])
                    if (n[1], x) == ("Lt", n[2]) or n[1] == "Ne":
                        r = v
                    elif (n[1], x) == ("Le", n[3]) or n[1] == "Eq":
                        r = B.NOT(v)
                    break
            if r is None:
                r = self.cmp(n[1], n[2], n[3], n[4])
        elif k == "bin" and n[1] in ("BitAnd", "BitOr", "BitXor") and n[4] == "bool":
            a, b = self.cond(n[2]), self.cond(n[3])
            r = B.AND(a, b) if n[1] == "BitAnd" else B.OR(a, b) if n[1] == "BitOr" else B.ite(a, B.NOT(b), b)
        elif k == "phi" and n[1] == self.uid and n[2] in self.flow.num:
            if n[2] in self.flow.loops:
                s = self.simp(t)
                r = B.var(("b", t)) if s == t else self.cond(s)
            else:
                self._cond[t] = B.var(("b", t))
                r = 0
                for p, v in self.phi_ops(t).items():
                    e = self.gate(p, n[2])
                    r = B.OR(r, B.AND(e, self.cond(v)))
        else:
            s = self.simp(t)
            if s != t:
                r = self.cond(s)
            elif k == "fld":
                r = self.distribute(t, self.cond)
            else:
                r = None
            if r is None:
                r = B.var(("b", s))
        self._cond[t] = r
        return r

    def distribute(self, t, fn):
        """fld chain over a join phi: OR over operands of gate & fn(projected)"""
        comps, x = [], t
        while nd(x)[0] == "fld":
            comps.append(nd(x)[2])
            x = nd(x)[1]
        n = nd(x)
        if n[0] != "phi" or n[1] != self.uid or n[2] in self.flow.loops or n[2] not in self.flow.num:
            return None
        r = 0
        for p, v in self.phi_ops(x).items():
            e = self.gate(p, n[2])
            y = self.simp(v)
            for c in reversed(comps):
                y = project(y, c)
            if y == UNDEF:
                continue
            if y == t:
                return None
            r = B.OR(r, B.AND(e, fn(y)))
        return r

    def cmp(self, op, a, b, ty):
        a, b = self.simp(a), self.simp(b)
        ty = strip_ref(ty)
        isf = ty in ("f64", "f32")
        if op == "Ne":
            return B.NOT(self.cmp("Eq", a, b, ty))
        na, nb = nd(a), nd(b)
        if op == "Eq":
            if ty == "bool":
                x, y = self.cond(a), self.cond(b)
                return B.ite(x, y, B.NOT(y))
            if a == b:
                return 1 if not isf else B.NOT(B.var(("nan", a)))
            if na[0] == "c" and nb[0] == "c":
                return 1 if na[1] == nb[1] else 0
            if a > b:
                a, b = b, a
            return B.var(("eq", a, b, "f" if isf else "i"))
        if op == "Le":
            if isf:
                return B.OR(self.cmp("Lt", a, b, ty), self.cmp("Eq", a, b, ty))
            return B.NOT(self.cmp("Lt", b, a, ty))
        # Lt
        if a == b:
            return 0
        if isf:
            if na[0] == "c" and nb[0] == "c":
                try:
                    return 1 if float(na[1]) < float(nb[1]) else 0
                except (ValueError, TypeError):
                    pass
            return B.var(("lt", a, b, "f"))
        if na[0] == "c" and nb[0] == "c" and isinstance(na[1], int) and isinstance(nb[1], int):
            return 1 if na[1] < nb[1] else 0
        if ty.startswith("u"):
            if na[0] == "c" and na[1] == 0:
                return B.NOT(self.cmp("Eq", a, b, ty))
            if nb[0] == "c" and nb[1] == 0:
                return 0
            if nb[0] == "c" and nb[1] == 1:
                return self.cmp("Eq", a, const(0, ty), ty)
        eq = self.cmp("Eq", a, b, ty)
        if a < b:
            return B.AND(B.NOT(eq), B.var(("lt", a, b, "i")))
        return B.AND(B.NOT(eq), B.NOT(B.var(("lt", b, a, "i"))))

    def isvar(self, t, name, names):
        """BDD of 'enum term t has variant name'"""
        key = ("is", t, name)
        r = self._cond.get(key)
        if r is not None:
            return r
        s = self.simp(t)
        n = nd(s)
        if n[0] == "agg":
            r = 1 if n[2] == name else 0
        elif n[0] == "call" and n[1] == "models::nextmut":
            r = self.isvar(n[2][0], name, names)
        elif n[0] == "upd" and isinstance(n[2][0], str) and n[2][0].startswith("#") and len(n[2]) > 1:
            r = self.isvar(n[1], name, names)       # a write inside the variant's payload keeps the variant
        elif n[0] == "phi" and n[1] == self.uid and n[2] in self.flow.num and n[2] not in self.flow.loops:
            self._cond[key] = B.var(("is", s, name))
            r = 0
            for p, v in self.phi_ops(s).items():
                r = B.OR(r, B.AND(self.gate(p, n[2]), self.isvar(v, name, names)))
        elif n[0] == "undef":
            r = 0
        else:
            if n[0] == "fld":
                r = self.distribute(s, lambda y: self.isvar(y, name, names))
            if r is None:
                if len(names) == 2:
                    pos = "Some" if "Some" in names else "Ok" if "Ok" in names else sorted(names)[0]
                    v = B.var(("is", s, pos))
                    r = v if name == pos else B.NOT(v)
                else:
                    r = B.var(("is", s, name))
        self._cond[key] = r
        return r

    def alive(self):
        """nodes that can reach a return"""
        if self._alive is None:
            seen, st = set(self.exits()), list(self.exits())
            while st:
                for p in self.flow.pred[st.pop()]:
                    if p not in seen:
                        seen.add(p)
                        st.append(p)
            self._alive = seen
        return self._alive

    def edge_cond(self, u, v):
        """condition of taking u->v given u reached"""
        k = self._edge.get((u, v))
        if k is not None:
            return k
        n = self.nodes[u]
        if n.t[0] != "switch":
            r = 1
        else:
            outs = [s for s in n.succ if (u, s) in self.feas]
            if self.nopanic:
                outs = [s for s in outs if s in self.alive()]
            if outs == [v]:
                r = 1
            elif self.nopanic and v not in outs:
                r = 0
            else:
                st = self.sout[u]
                x = self.operand(st, n.t[1])
                r = 0
                other = 1
                for val, tgt in n.t[3]:
                    c = self.val_cond(x, val, n.t[2])
                    if tgt == v:
                        r = B.OR(r, B.AND(other, c))
                    other = B.AND(other, B.NOT(c))
                if n.t[4] == v:
                    r = B.OR(r, other)
        self._edge[(u, v)] = r
        return r

    def val_cond(self, x, val, ty):
        n = nd(x)
        if n[0] == "discr":
            for dv, name in n[2]:
                if dv == val:
                    return self.isvar(n[1], name, [q for _, q in n[2]])
            return self.cmp("Eq", x, const(val, "isize"), "isize")
        if ty == "bool":
            c = self.cond(x)
            return c if val else B.NOT(c)
        return self.cmp("Eq", x, const(val, ty), ty)

    # region propagation
    def region(self, root, upto=None):
        """formulas (relative to root) of nodes/edges at root's loop level, inner loops collapsed;
        evaluated lazily in reverse post-order up to (excluding) position `upto`"""
        fl = self.flow
        R = self._prop.get(root)
        if R is None:
            R = self._prop[root] = [{root: 1}, {}, fl.num[root]]
        g, eg, _ = R
        inner = fl.inl[root]
        L = inner[0] if inner else None
        body = fl.loops[L] if L is not None else None
        order = fl.order
        if upto is None:
            upto = len(order)
        while R[2] < upto:
            u = order[R[2]]
            R[2] += 1
            if body is not None and u not in body:
                continue
            gu = g.get(u)
            if gu is None:
                continue
            hs = fl.inl[u]
            if hs and hs[0] == u and u != L and root not in fl.loops[u]:
                for (a, b), c in self.loop_exits(u).items():
                    f = B.AND(gu, c)
                    if (a, b) in eg:
                        f = B.OR(eg[(a, b)], f)
                    eg[(a, b)] = f
                    if (body is not None and b not in body) or (a, b) in fl.back:
                        continue
                    g[b] = B.OR(g.get(b, 0), f)
                continue
            if hs and (L is None or hs[0] != L) and root not in fl.loops[hs[0]]:
                continue        # strictly inside an inner loop: covered by its summary
            for v in fl.succ[u]:
                f = B.AND(gu, self.edge_cond(u, v))
                eg[(u, v)] = f
                if (u, v) in fl.back or (body is not None and v not in body):
                    continue
                g[v] = B.OR(g.get(v, 0), f)
        return R

    def rnode(self, root, n):
        return self.region(root, self.flow.num[n])[0].get(n, 0)

    def loop_exits(self, h):
        """summary of loop h: {exit edge: formula relative to reaching h from outside}"""
        r = self._loopsum.get(h)
        if r is not None:
            return r
        fl = self.flow
        body = fl.loops[h]
        g, eg, _ = self.region(h)
        exits = {}
        for (a, b), f in eg.items():
            if b not in body and a in body:
                exits[(a, b)] = f
        exh, early = {}, {}
        dom = []
        for e, f in exits.items():
            sup = [B.vars[v] for v in B.support(f)]
            nx = [a for a in sup if a[0] == "is" and nd(a[1])[0] == "next"]
            if f != 1 and nx and len(nx) == len(sup):
                exh[e] = f
            else:
                early[e] = f
            for a in nx:
                d = nd(a[1])[1]
                if d not in dom:
                    dom.append(d)
        out = {}
        # early exits that diverge (panic) are not ways to continue
        if not early:
            tot = list(exh)
            if len(tot) <= 1:
                for e in tot:
                    out[e] = 1
            else:
                self.split(tot, exh, out, 1)
            C = 0
            X = 0
        else:
            C = 0
            for f in early.values():
                C = B.OR(C, f)
            for v in list(B.support(C)):
                a = B.vars[v]
                if a[0] == "is" and nd(a[1])[0] == "next" and a[2] == "Some":
                    C = B.restrict(C, v, 1)
            if exh:
                X = B.var(("exists", tuple(sorted(dom)), C, len(fl.inl[h]))) if C else 0
                self.split(list(exh), exh, out, B.NOT(X))
                self.split(list(early), early, out, X)
            else:
                X = None
                self.split(list(early), early, out, 1)
        self.loopinfo[h] = {"dom": dom, "C": C, "X": X, "exh": list(exh), "early": list(early)}
        self._loopsum[h] = out
        return out

    def split(self, edges, forms, out, base):
        rest = base
        for e in edges[:-1]:
            out[e] = B.AND(rest, forms[e])
            rest = B.AND(rest, B.NOT(forms[e]))
        e = edges[-1]
        f = forms[e]
        for v in list(B.support(f)):
            if not self.fixed(B.vars[v]):
                f = B.exists(f, v)
        out[e] = B.AND(rest, f)

    def fixed(self, a):
        """atom about values that never change: parts of the entry's arguments and constants"""
        r = self._fixed.get(a)
        if r is None:
            r = a[0] in ("is", "b", "lt", "eq", "nan") and all(
                all(nd(x)[0] in ("fld", "arg", "c", "bin", "un") for x in subterms(t)) for t in a[1:] if type(t) is int)
            self._fixed[a] = r
        return r

    def rel(self, d, n):
        """formula of reaching n from its dominator d (d's loops all contain n)"""
        fl = self.flow
        if d == n:
            return 1
        base = set(fl.inl[d])
        hs = [h for h in fl.inl[n] if h not in base]      # innermost first
        g = 1
        cur = d
        for h in reversed(hs):
            if h != cur:
                g = B.AND(g, self.rnode(cur, h))
            cur = h
        if cur != n:
            g = B.AND(g, self.rnode(cur, n))
        return g

    def guard(self, n):
        if n not in self.flow.num:
            return 0
        return self.rel(self.entry, n)

    def edge_rel(self, d, p, n):
        fl = self.flow
        base = set(fl.inl[d])
        # loops containing p but not n are exited by this edge
        common = [h for h in fl.inl[n] if h not in base]
        g, cur = 1, d
        for h in reversed(common):
            if (p, n) in fl.back and h == n:
                pass
            if h != cur:
                g = B.AND(g, self.rnode(cur, h))
            cur = h
        upto = fl.num[n] if fl.num[p] < fl.num[n] or (p, n) not in fl.back else None
        return B.AND(g, self.region(cur, upto)[1].get((p, n), 0))

    def gate(self, p, n):
        """condition that join n was entered from p, relative to n's gating dominator"""
        fl = self.flow
        d = fl.idom[n]
        ln = set(fl.inl[n])
        while any(h not in ln for h in fl.inl[d]):
            h = [h for h in fl.inl[d] if h not in ln][-1]
            d = fl.idom[h]
        return self.edge_rel(d, p, n)

    # ---- queries -------------------------------------------------------------
    def axioms(self, f):
        """consistency constraints among the atoms of f"""
        ax = 1
        atoms = [B.vars[v] for v in B.support(f)]
        done = set()
        isg = {}
        for a in atoms:
            if a[0] == "is":
                isg.setdefault(a[1], []).append(a)
            if a[0] in ("lt", "eq") and a[3] == "f":
                x, y = sorted((a[1], a[2]))
                if (x, y) in done:
                    continue
                done.add((x, y))
                l1, l2, e = ("lt", x, y, "f"), ("lt", y, x, "f"), ("eq", x, y, "f")
                pres = [q for q in (l1, l2, e) if q in B.vidx]
                for i in range(len(pres)):
                    for j in range(i):
                        ax = B.AND(ax, B.NOT(B.AND(B.var(pres[i]), B.var(pres[j]))))
                for z in (x, y):
                    nn = ("nan", z)
                    if nn in B.vidx:
                        for q in pres:
                            ax = B.AND(ax, B.NOT(B.AND(B.var(q), B.var(nn))))
        for t, l in isg.items():
            for i in range(len(l)):
                for j in range(i):
                    ax = B.AND(ax, B.NOT(B.AND(B.var(l[i]), B.var(l[j]))))
        return ax

    def implies(self, f, g):
        both = B.AND(f, B.NOT(g))
        if both == 0:
            return True
        return B.AND(both, self.axioms(both)) == 0

    def events(self, pred=None):
        for n in self.flow.order:
            for e in self.events_at.get(n, ()):
                if pred is None or pred(e):
                    yield e

    def writes(self, pred=None):
        for n in self.flow.order:
            for w in self.writes_at.get(n, ()):
                if pred is None or pred(w):
                    yield w

    def exits(self):
        return [r for r in self.inl.rets if r in self.flow.num]

    def ret_at(self, n):
        return self.read(self.sout[n], (("L", 0),)) if 0 not in self.ssa else self.env.get(0, UNDEF)

    def show_f(self, f, limit=8):
        if f < 2:
            return "true" if f else "false"
        out = []
        for c in B.cubes(f, limit):
            out.append(" & ".join(("" if val else "!") + self.show_atom(B.vars[v]) for v, val in sorted(c.items())))
        return "  |  ".join(out)

    def show_atom(self, a):
        if a[0] == "b":
            return shown(a[1])
        if a[0] == "is":
            return f"{shown(a[1])} is {a[2]}"
        if a[0] in ("lt", "eq"):
            return f"({shown(a[1])} {'<' if a[0] == 'lt' else '=='} {shown(a[2])})"
        if a[0] == "nan":
            return f"nan({shown(a[1])})"
        if a[0] == "exists":
            return f"exists[{', '.join(shown(d) for d in a[1])}]({self.show_f(a[2])})"
        return str(a)


def strip_iter(t):
    return t


def canon_iter(k, dom, mark):
    """for i in 0..v.len() walks the positions of v"""
    n = nd(dom)
    if n[0] == "agg" and n[1].endswith("::ops::Range") and len(n[4]) == 2 and is_const(n[4][0]) and nd(n[4][0])[1] == 0:
        e = nd(n[4][1])
        if e[0] == "call" and e[1] == "len":
            return mk("idx" if k in ("elem", "idx") else k, e[2][0], mark)
    return mk(k, dom, mark)


def canon_call(f, args, site):
    """exact identities of float and array operations"""
    if len(args) == 2 and "f64::<impl f64>::" in f:
        m = f.rsplit("::", 1)[1]
        if m in ("max", "min"):
            return mk("call", f, tuple(sorted(args)), site)
        if m == "powi" and nd(args[1])[0] == "c" and nd(args[1])[1] == 2:
            return binop("Mul", args[0], args[0], "f64")
    if len(args) == 1 and f.endswith("f64>::abs"):
        n = nd(args[0])
        if n[0] == "bin" and n[1] == "Sub" and n[2] > n[3]:
            return mk("call", f, (binop("Sub", n[3], n[2], n[4]),), site)
    if len(args) == 2 and f.endswith("::dot") and args[0] == args[1]:
        n = nd(args[0])
        if n[0] == "call" and n[1].endswith("::sub") and len(n[2]) == 2:
            return mk("call", "dist2", tuple(sorted(n[2])), "")
    return mk("call", f, args, site)


def is_mutref(ty):
    s = ty[1:].strip()
    if s.startswith("'"):
        s = s.split(" ", 1)[1] if " " in s else s
    return s.startswith("mut ")


def retgt(t, a, b):
    k = t[0]
    if k == "goto":
        return ("goto", b if t[1] == a else t[1])
    if k == "assert":
        return t[:5] + (b if t[5] == a else t[5],) + t[6:]
    if k == "switch":
        return t[:3] + (tuple((v, b if x == a else x) for v, x in t[3]), b if t[4] == a else t[4]) + t[5:]
    if k == "call":
        return t[:4] + (b if t[4] == a else t[4],)
    return t
