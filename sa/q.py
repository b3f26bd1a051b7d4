"""Queries on an Analysis: guarded values, element provenance of collections, pairing, matching."""
from terms import (mk, nd, const, agg, project, binop, B, UNDEF, TRUE, FALSE, is_const, shown, short, children, subterms)

# reorder / select elements, never change or add one
PERMUTE = ("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "reverse", "shuffle",
           "select_nth_unstable", "select_nth_unstable_by", "truncate", "dedup", "retain", "swap", "rotate_left", "rotate_right",
           "reserve", "shrink_to_fit", "partial_shuffle", "sort_by_cached_key", "select_nth_unstable_by_key")
REMOVE = ("swap_remove", "remove", "pop", "drain", "clear", "split_off", "next", "next_back")
EMPTY = ("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::default::Default::default")
PASS = {"models::Skip", "models::Take", "models::Rev", "models::StepBy", "models::Inspect", "models::Filter"}


def leafname(p):
    return p.rsplit("::", 1)[-1]


class Q:
    def __init__(self, A):
        self.A = A
        self._el = {}

    def s(self, t):
        return self.A.simp(t)

    ctx, ctxl = 1, frozenset()

    def under(self, node, guard=None):
        """consider only executions that reach node"""
        q = self

        class W:
            def __enter__(w):
                w.old = (q.ctx, q.ctxl)
                q.ctx, q.ctxl = q.A.guard(node) if guard is None else guard, frozenset(q.A.flow.inl[node])

            def __exit__(w, *a):
                q.ctx, q.ctxl = w.old
        return W()

    def ops(self, t):
        """operands of a phi, without those that contradict the context"""
        A, n = self.A, nd(t)
        o = A.phi_ops(t)
        if self.ctx == 1 or n[2] in A.flow.loops or not set(A.flow.inl.get(n[2], ())) <= self.ctxl:
            return o
        return {p: v for p, v in o.items() if A.flow.num.get(p) is None or B.AND(self.ctx, A.gate(p, n[2])) != 0}

    # ---- guarded alternatives of a value
    def cases(self, t, depth=0, limit=200):
        """[(guard, leaf)]: join phis (also under projections) expanded, loop phis kept"""
        A = self.A
        t = A.simp(t)
        n = nd(t)
        if depth > 40:
            return [(1, t)]
        if n[0] == "phi" and n[1] == A.uid and n[2] in A.flow.num and n[2] not in A.flow.loops:
            out = {}
            for p, v in self.ops(t).items():
                e = A.gate(p, n[2])
                if e == 0 or v == UNDEF:
                    continue
                for g, l in self.cases(v, depth + 1):
                    g2 = B.AND(e, g)
                    if g2 != 0:
                        out[l] = B.OR(out.get(l, 0), g2)
            return [(g, l) for l, g in out.items()] or [(1, t)]
        if n[0] == "fld":
            base = n[1]
            cs = self.cases(base, depth + 1)
            if len(cs) > 1 or cs[0][1] != base:
                out = {}
                for g, l in cs:
                    x = project(l, n[2])
                    if x == UNDEF:
                        continue
                    if nd(x)[0] == "fld" and nd(x)[1] == l and nd(l)[0] not in ("phi",):
                        sub = [(1, A.simp(x))]
                    else:
                        sub = self.cases(x, depth + 1) if x != t else [(1, x)]
                    for g2, l2 in sub:
                        g3 = B.AND(g, g2)
                        if g3 != 0:
                            out[l2] = B.OR(out.get(l2, 0), g3)
                return [(g, l) for l, g in out.items()] or [(1, t)]
        return [(1, t)]

    def leaves(self, t):
        """all possible leaf values, through join and loop phis"""
        out, seen, st = [], set(), [self.A.simp(t)]
        while st:
            x = self.A.simp(st.pop())
            if x in seen:
                continue
            seen.add(x)
            n = nd(x)
            if n[0] == "phi" and n[1] == self.A.uid:
                st += [v for v in self.ops(x).values() if v != UNDEF]
                continue
            if n[0] == "fld":
                comps, y = [], x
                while nd(y)[0] == "fld":
                    comps.append(nd(y)[2])
                    y = nd(y)[1]
                if nd(y)[0] == "phi" and nd(y)[1] == self.A.uid:
                    for v in self.ops(y).values():
                        if v == UNDEF:
                            continue
                        z = self.A.simp(v)
                        for c in reversed(comps):
                            z = project(z, c)
                        if z != UNDEF and z != x:
                            st.append(z)
                    continue
            out.append(x)
        return out

    # ---- collections
    def elems(self, t):
        """possible elements of collection t: [(element term, push term or None)]; an element that cannot be named is
        the term elem(collection, '*')"""
        t = self.A.simp(t)
        if (t, self.ctx) in self._el:
            return self._el[(t, self.ctx)]
        out, seen = [], set()
        self._elems(t, out, seen)
        r = []
        for x in out:
            if x not in r:
                r.append(x)
        self._el[(t, self.ctx)] = r
        return r

    def _elems(self, t, out, seen):
        A = self.A
        t = A.simp(t)
        if t in seen:
            return
        seen.add(t)
        n = nd(t)
        k = n[0]
        if k == "phi" and n[1] == A.uid:
            for v in self.ops(t).values():
                if v != UNDEF:
                    self._elems(v, out, seen)
            return
        if k == "push":
            self._elems(n[1], out, seen)
            out.append((A.simp(n[2]), t))
            return
        if k == "upd" and n[2] and not isinstance(n[2][0], str) and len(n[2]) == 1:
            self._elems(n[1], out, seen)
            if is_range(n[2][0][1]):
                self._elems(n[3], out, seen)
            else:
                out.append((A.simp(n[3]), t))
            return
        if k == "mut" and n[1] == A.uid:
            res, path, args, old, loc = A.mutinfo[(n[2], n[3])]
            nm = leafname(path)
            if nm in PERMUTE or nm in REMOVE:
                self._elems(old, out, seen)
                return
            if nm in ("extend_from_slice", "append", "extend") and len(args) == 2:
                self._elems(old, out, seen)
                self._elems(args[1], out, seen)
                return
            if nm == "insert" and len(args) == 3:
                self._elems(old, out, seen)
                out.append((A.simp(args[2]), t))
                return
            if nm == "push" and len(args) == 2:
                self._elems(old, out, seen)
                out.append((A.simp(args[1]), t))
                return
        if k == "agg":
            if n[1] in ("array", "repeat"):
                out.extend((A.simp(x), t) for x in n[4])
                return
            if n[1] in PASS:
                self._elems(n[4][0], out, seen)
                return
            if n[1] == "models::Chain":
                self._elems(n[4][0], out, seen)
                self._elems(n[4][1], out, seen)
                return
            if n[1] == "models::Enumerate":
                sub = []
                self._elems(n[4][0], sub, set())
                for x, p in sub:
                    out.append((agg("tuple", "", ("0", "1"), (mk("idx", n[4][0], "*"), x)), p))
                return
        if k == "call":
            if n[1] in EMPTY or (leafname(n[1]) in ("new", "with_capacity", "default") and "ec" in n[1] and not n[2]):
                return
            if leafname(n[1]) == "with_capacity" and "Vec" in n[1]:
                return
            if leafname(n[1]) in ("chunks", "chunks_exact", "windows"):
                out.append((mk("call", "subslice", (n[2][0],), ""), None))
                return
            if n[1] == "subslice":
                self._elems(n[2][0], out, seen)
                return
            if leafname(n[1]) in ("to_vec", "into_vec", "from_vec", "from", "into_iter", "iter", "drain", "as_slice", "to_owned") and n[2]:
                self._elems(n[2][0], out, seen)
                return
            if n[1] == "models::mem_replace" or n[1] == "std::mem::replace":
                pass
        if k == "at":
            if is_range(n[2]):
                self._elems(n[1], out, seen)
                return
        if k in ("elem", "at"):
            for x, p in self.elem_of(t):
                if x != t:
                    self._elems(x, out, seen)
                else:
                    out.append((mk("elem", t, "*"), None))
            return
        if k == "fld" and n[2] in ("0", "1") and nd(n[1])[0] == "call" and leafname(nd(n[1])[1]) in ("split_at", "split_at_mut"):
            self._elems(nd(n[1])[2][0], out, seen)
            return
        if k == "fld":
            comps, y = [], t
            while nd(y)[0] == "fld":
                comps.append(nd(y)[2])
                y = nd(y)[1]
            ny = nd(y)
            if ny[0] == "phi" and ny[1] == A.uid:
                for v in self.ops(y).values():
                    if v == UNDEF:
                        continue
                    z = A.simp(v)
                    for c in reversed(comps):
                        z = project(z, c)
                    if z != UNDEF and z != t:
                        self._elems(z, out, seen)
                return
            if ny[0] in ("elem", "at"):
                for x, p in self.elem_of(y):
                    z = x
                    for c in reversed(comps):
                        z = project(z, c)
                    if z == UNDEF:
                        continue
                    if x != y and z != t:
                        self._elems(z, out, seen)
                    else:
                        out.append((mk("elem", t, "*"), None))
                return
        out.append((mk("elem", t, "*"), None))

    def elem_of(self, t):
        """values of an element access elem(C) / C[i] / min_by(C) -> [(value, push)]"""
        n = nd(t)
        if n[0] in ("elem", "at") or is_pick(t):
            el = self.elems(n[1] if n[0] != "call" else n[2][0])
            r = []
            mark = n[2] if n[0] == "elem" else ("of", t)
            for x, p in el:
                nx = nd(x)
                if n[0] == "at" and nx[0] == "elem" and nx[2] == "*":
                    r.append((mk("at", nx[1], n[2]), p))
                else:
                    r.append((remark(x, mark), p))
            return r
        return [(t, None)]

    def access(self, t):
        """split t = projections of an element access -> (access term or None, [components outermost last])"""
        comps, y = [], t
        while nd(y)[0] == "fld":
            if nd(y)[2] == "0" and nd(nd(y)[1])[0] == "fld" and nd(nd(y)[1])[2] == "#Some" and is_pick(nd(nd(y)[1])[1]):
                return nd(nd(y)[1])[1], comps[::-1], y
            comps.append(nd(y)[2])
            y = nd(y)[1]
        if nd(y)[0] in ("elem", "at"):
            return y, comps[::-1], y
        return None, comps[::-1], y

    # ---- pairing of points with their objectives
    def pair_ok(self, p, o, depth=0, trail=()):
        """o is the objective value of point p"""
        A = self.A
        p, o = A.simp(p), A.simp(o)
        if depth > 25 or (p, o) in trail:
            return (p, o) in trail
        trail = trail + ((p, o),)
        a = call_of(o, "objective")
        if a is not None and len(a) == 2 and a[1] == p:
            return True
        if self.axiom_pair and self.axiom_pair(p, o):
            return True
        np_, no = nd(p), nd(o)
        if np_[0] == "fld" and no[0] == "fld" and np_[1] == no[1] and np_[2] == "point" and no[2] == "objective":
            return True
        # joins
        if np_[0] == "phi" and no[0] == "phi" and np_[1] == no[1] == A.uid and np_[2] == no[2]:
            po, oo = self.ops(p), self.ops(o)
            return all(pr in oo and self.pair_ok(po[pr], oo[pr], depth + 1, trail) for pr in po if po[pr] != UNDEF)
        for t, other, first in ((p, o, True), (o, p, False)):
            cs = self.cases(t)
            if len(cs) > 1:
                ok = True
                for g, x in cs:
                    oc = [y for g2, y in self.cases(other) if B.AND(g, g2) != 0]
                    for y in oc:
                        ok = ok and (self.pair_ok(x, y, depth + 1, trail) if first else self.pair_ok(y, x, depth + 1, trail))
                return ok
            if cs[0][1] != t:
                t2 = cs[0][1]
                return self.pair_ok(t2, other, depth + 1, trail) if first else self.pair_ok(other, t2, depth + 1, trail)
        # element accesses: same position of paired vectors
        pa, oa = self.position(p), self.position(o)
        if pa and oa and pa[1] == oa[1] and self.vec_paired(pa[0], oa[0], depth + 1, trail):
            return True
        for t in (p, o):
            acc, comps, full = self.access(t)
            if acc is None:
                continue
            vs = self.elem_of(acc)
            if len(vs) == 1 and vs[0][0] == full:
                continue
            return bool(vs) and all(self.pair_ok(subst(p, full, x), subst(o, full, x), depth + 1, trail) for x, _ in vs)
        return False

    def position(self, t):
        """t is the element of vector V at position pos -> (V, pos)"""
        n = nd(t)
        if n[0] == "elem":
            v, pos = n[1], n[2]
            while nd(v)[0] == "agg" and nd(v)[1] in ("models::Take", "models::Inspect"):
                v = nd(v)[4][0]
            return (self.A.simp(v), pos) if nd(v)[0] != "agg" or not nd(v)[1].startswith("models::") else None
        if n[0] == "at":
            i = n[2]
            ni = nd(i)
            if ni[0] == "bin" and ni[1] == "Rem" and nd(ni[3])[0] == "call" and nd(ni[3])[1] == "len":
                i = ni[2]       # i % len(v) with i a position of a vector paired with v
                ni = nd(i)
            if ni[0] == "idx":
                v = ni[1]
                while nd(v)[0] == "agg" and nd(v)[1] in ("models::Take", "models::Inspect"):
                    v = nd(v)[4][0]
                if nd(v)[0] == "agg" and nd(v)[1].startswith("models::"):
                    return None
                return (n[1], ni[2])
            if ni[0] == "elem" and is_range(ni[1]) and nd(nd(ni[1])[4][0])[0] == "c" and nd(nd(ni[1])[4][0])[1] == 0:
                return (n[1], ni[2])
            return (n[1], i)
        if n[0] == "fld" and n[2] == "1":
            # the element picked from an enumeration stands at the index picked with it
            acc, comps, full = self.access(t)
            if acc is not None and is_pick(acc) and comps == ["1"]:
                e = nd(self.A.simp(nd(acc)[2][0]))
                if e[0] == "agg" and e[1] == "models::Enumerate":
                    return (self.A.simp(e[4][0]), project(full, "0"))
        if n[0] == "fld" and n[2] in ("0", "1"):
            # the sides of a pair picked from two lists walked together
            acc, comps, full = self.access(t)
            if acc is not None and is_pick(acc) and comps == [n[2]]:
                e = nd(self.A.simp(nd(acc)[2][0]))
                if e[0] == "agg" and e[1] == "models::Zip":
                    return (self.A.simp(e[4][int(n[2])]), ("pick", acc))
        return None

    def vec_paired(self, v, w, depth=0, trail=()):
        """position by position, w holds the objectives of the points of v"""
        A = self.A
        v, w = A.simp(v), A.simp(w)
        if ("v", v, w) in trail:
            return True
        if depth > 25:
            return False
        trail = trail + (("v", v, w),)
        nv, nw = nd(v), nd(w)
        if self.is_empty(v) and self.is_empty(w):
            return True
        fv, fw = fieldpath(v), fieldpath(w)
        if fv and fw and (fv, fw) in self.paired_fields:
            return True
        if nv[0] == "push" and nw[0] == "push":
            return self.vec_paired(nv[1], nw[1], depth + 1, trail) and self.pair_ok(nv[2], nw[2], depth + 1, trail)
        # w = objectives of v, one by one
        if nw[0] == "phi" and nw[1] == A.uid and nw[2] in A.flow.loops:
            ops = self.ops(w)
            back = {p: x for p, x in ops.items() if (p, nw[2]) in A.flow.back}
            init = [x for p, x in ops.items() if p not in back and x != UNDEF]
            if all(self.is_empty(x) for x in init) and back:
                ok = True
                for p, x in back.items():
                    xs = [l for g, l in self.cases(x)]
                    for l in xs:
                        nl = nd(l)
                        if not (nl[0] == "push" and A.simp(nl[1]) == w):
                            ok = False
                            continue
                        a = call_of(A.simp(nl[2]), "objective")
                        pos = self.position(A.simp(a[1])) if a and len(a) == 2 else None
                        if not (pos and pos[0] == v):
                            ok = False
                if ok:
                    return True
            m = self.through(w)
            a = call_of(m[1], "objective") if m else None
            pos = self.position(A.simp(a[1])) if a and len(a) == 2 else None
            if pos and pos[0] == v:
                return True
        lv, lw = self.mapped(v), self.mapped(w)
        if lv and lw and lv[0] == lw[0] and self.pair_ok(remark(lv[1], "pair"), remark(lw[1], "pair"), depth + 1, trail):
            return True
        bv, cv = chain(v)
        bw, cw = chain(w)
        nbv, nbw = nd(bv), nd(bw)
        if nbv[0] == "phi" and nbw[0] == "phi" and nbv[1] == nbw[1] == A.uid and nbv[2] == nbw[2]:
            po, oo = self.ops(bv), self.ops(bw)
            for pr in po:
                x, y = unchain(A.simp(po[pr]), cv), unchain(A.simp(oo.get(pr, UNDEF)), cw)
                if x == UNDEF or y == UNDEF:
                    continue
                if not self.vec_paired(x, y, depth + 1, trail):
                    return False
            return True
        cw, cv = self.cases(w), self.cases(v)
        gw, gv = self.defguard(w, v), self.defguard(v, w)
        cw, cv = [k for k in cw if B.AND(k[0], gv) != 0] or cw, [k for k in cv if B.AND(k[0], gw) != 0] or cv
        sw, sv = len(cw) > 1 or cw[0][1] != w, len(cv) > 1 or cv[0][1] != v
        if sw and all(self.vec_paired(v, y, depth + 1, trail) for _, y in cw):
            return True
        if sv and all(self.vec_paired(x, w, depth + 1, trail) for _, x in cv):
            return True
        if sw and sv:
            return all(self.vec_paired(x, y, depth + 1, trail) for g, x in cv for g2, y in cw if B.AND(g, g2) != 0)
        return False

    def mapped(self, v):
        """v is built by a loop that pushes one value per element of a domain -> (domain, value)"""
        A, n = self.A, nd(v)
        if not (n[0] == "phi" and n[1] == A.uid and n[2] in A.flow.loops):
            return None
        vals = set()
        for p, x in self.ops(v).items():
            if (p, n[2]) not in A.flow.back:
                if x != UNDEF and not self.is_empty(A.simp(x)):
                    return None
                continue
            for g, y in self.cases(x):
                if nd(y)[0] != "push" or A.simp(nd(y)[1]) != v:
                    return None
                vals.add(A.simp(nd(y)[2]))
        if len(vals) != 1:
            return None
        val = vals.pop()
        doms = {A.simp(nd(s)[1]) for s in subterms(val) if nd(s)[0] == "elem"}
        return (doms.pop(), val) if len(doms) == 1 else None

    def whole(self, v):
        """the loop that builds v ends only at the end of its domain"""
        A, h = self.A, nd(v)[2]
        body = A.flow.loops[h]
        for (u, w), f in A.region(h)[1].items():
            if u in body and w not in body and f != 0:
                ends = [a for a in atoms(f) if a[0] == "is" and a[2] == "Some" and nd(a[1])[0] == "next"]
                if not any(implies(f, B.NOT(B.var(a))) for a in ends):
                    return False
        return True

    def through(self, v, depth=0):
        """mapped(v), looking through the complete lists it is mapped from"""
        A = self.A
        m = self.mapped(A.simp(v))
        if m is None or depth > 4:
            return m
        dom, val = m
        i = self.through(dom, depth + 1)
        if i is None or not self.whole(dom):
            return m
        return i[0], self.opened(val)

    def opened(self, t):
        """t with every element of a list mapped completely from another replaced by what it is mapped to"""
        A = self.A

        def f(s):
            n = nd(s)
            if n[0] != "elem":
                return None
            i = self.through(n[1])
            if i is None or not self.whole(A.simp(n[1])):
                return None
            marks = {nd(x)[2] for x in subterms(i[1]) if nd(x)[0] == "elem" and A.simp(nd(x)[1]) == i[0]}
            if len(marks) != 1:
                return None
            old = marks.pop()
            return rebuild(i[1], lambda x: mk(nd(x)[0], nd(x)[1], n[2]) if nd(x)[0] in ("elem", "idx") and nd(x)[2] == old else None)
        return A.simp(rebuild(t, f))

    def copy_of(self, v):
        """the list that v is, or is a complete element-by-element copy of"""
        A, v = self.A, self.A.simp(v)
        m = self.through(v)
        if m is None or nd(m[1])[0] != "elem" or not self.whole(v):
            return v
        return m[0]

    def listing(self, v, depth=0):
        """a list as its segments: ("one", item) and ("all", list), in order; None if the parts are not known"""
        A, v = self.A, self.A.simp(v)
        n = nd(v)
        if depth > 8:
            return None
        if self.is_empty(v):
            return []
        if n[0] == "agg" and n[1] == "array":
            return [("one", A.simp(x)) for x in n[4]]
        if n[0] == "push":
            a = self.listing(n[1], depth + 1)
            return None if a is None else a + [("one", A.simp(n[2]))]
        if n[0] == "call" and leafname(n[1]) == "from_elem" and nd(n[2][0])[0] == "c" and nd(n[2][0])[1] == 1:
            return [("one", A.simp(n[2][1]))]
        if n[0] == "call" and leafname(n[1]) == "once" and len(n[2]) == 1:
            return [("one", A.simp(n[2][0]))]
        if n[0] == "fld" and n[2] == "0" and nd(n[1])[0] == "call" and leafname(nd(n[1])[1]) == "into_raw_vec_and_offset":
            return self.listing(nd(n[1])[2][0], depth + 1)
        if n[0] == "call" and leafname(n[1]) in ("into_raw_vec", "into_vec") and len(n[2]) == 1:
            return self.listing(n[2][0], depth + 1)
        if n[0] == "phi" and n[1] == A.uid and n[2] in A.flow.loops:
            h = n[2]
            init, parts = set(), {}
            for p, x in self.ops(v).items():
                if (p, h) not in A.flow.back:
                    if x != UNDEF:
                        init.add(A.simp(x))
                    continue
                for g, y in self.cases(x):
                    if nd(y)[0] != "push" or A.simp(nd(y)[1]) != v:
                        return None
                    for g2, z in self.cases(nd(y)[2]):
                        pick = [a for a in atoms(B.AND(g, g2)) if a[0] == "b" and nd(a[1])[0] == "call" and "pick_first" in nd(a[1])[1]]
                        if nd(z)[0] != "elem" or len(pick) > 1 or B.AND(g, g2) == 0:
                            if B.AND(g, g2) == 0:
                                continue
                            return None
                        side = 0 if not pick else (1 if implies(B.AND(g, g2), B.var(pick[0])) else 2)
                        parts.setdefault(side, set()).add(A.simp(nd(z)[1]))
            if len(init) != 1 or any(len(x) != 1 for x in parts.values()) or set(parts) not in ({0}, {1, 2}):
                return None
            body = A.flow.loops[h]
            for (u, w), f in A.region(h)[1].items():
                if u in body and w not in body and f != 0:
                    ends = [a for a in atoms(f) if a[0] == "is" and a[2] == "Some" and nd(a[1])[0] == "next"]
                    over = 0
                    for a in ends:
                        over = B.OR(over, B.NOT(B.var(a)))
                    if not implies(f, over):
                        return None
            out = self.listing(init.pop(), depth + 1)
            for k in sorted(parts):
                s = self.listing(next(iter(parts[k])), depth + 1)
                if out is None or s is None:
                    return None
                out = out + s
            return out
        return [("all", v)]

    def defguard(self, t, other):
        """condition under which the phi t exists, for executions where other exists as well"""
        A = self.A
        b, o = nd(chain(t)[0]), nd(chain(other)[0])
        if b[0] == "phi" and o[0] == "phi" and b[1] == o[1] == A.uid and b[2] in A.flow.num and o[2] in A.flow.num:
            if set(A.flow.inl.get(b[2], ())) - {b[2]} <= set(A.flow.inl.get(o[2], ())):
                return A.guard(b[2])
        return 1

    def is_empty(self, t):
        n = nd(t)
        return (n[0] == "call" and leafname(n[1]) in ("new", "with_capacity", "default") and ("Vec" in n[1] or "Default" in n[1])) or \
            (n[0] == "agg" and n[1] == "array" and not n[4])

    paired_fields = ()
    axiom_pair = None

    def origins(self, t, depth=0):
        """resolve element accesses: [(term, guard of being put there)]"""
        A = self.A
        out = []
        for g, x in self.cases(t):
            acc, comps, y = self.access(x)
            comps = comps[::-1]
            if acc is not None and depth < 12:
                vs = self.elem_of(acc)
                if not (len(vs) == 1 and vs[0][0] == y):
                    for v, p in vs:
                        z = v
                        for c in reversed(comps):
                            z = project(z, c)
                        if z == UNDEF:
                            continue
                        pg = self.pushguard(p)
                        for t2, g2 in self.origins(z, depth + 1):
                            out.append((t2, B.AND(B.AND(g, pg), g2)))
                    continue
            out.append((x, g))
        return out

    def pushguard(self, p):
        if p is None:
            return 1
        nodes = self.pushnodes(p)
        if not nodes:
            return 1
        g = 0
        for n in nodes:
            g = B.OR(g, self.A.guard(n))
        return g

    def pushnodes(self, p):
        """nodes where a push term was created"""
        m = getattr(self, "_pn", None)
        if m is None:
            m = self._pn = {}
            for e in self.A.events():
                if leafname(e.path) in ("push", "push_back") and e.muts:
                    v = mk("push", e.args[0], e.raw[1])
                    m.setdefault(self.A.simp(v), []).append(e.node)
        return m.get(p) or m.get(self.A.simp(p)) or []

    # ---- events
    def calls(self, *names, path=None):
        for e in self.A.events():
            if leafname(e.path) in names and (path is None or path in e.path or path in e.fn):
                if self.A.guard(e.node) != 0:
                    yield e

    def loops_of(self, n):
        return self.A.flow.inl[n]


def is_range(t):
    n = nd(t)
    return n[0] == "agg" and "::ops::Range" in n[1]


def strip(t):
    """drop Some/Ok payload projections"""
    while nd(t)[0] == "fld" and nd(t)[2] in ("#Some", "#Ok", "0") and nd(nd(t)[1])[0] in ("fld", "call", "phi", "elem"):
        t = nd(t)[1]
    return t


def call_of(t, name):
    """t is the (Ok/Some payload of a) call to a function named `name` -> its args"""
    n = nd(t)
    while n[0] == "fld" and n[2] in ("#Some", "#Ok", "0"):
        t = n[1]
        n = nd(t)
    if n[0] == "call" and leafname(n[1]) == name:
        return n[2]
    return None


def field(t, *names):
    for x in names:
        t = project(t, x)
    return t


def fieldpath(t):
    """self.a.b -> ('self', 'a', 'b') for an argument rooted chain (variant projections dropped)"""
    out = []
    while True:
        n = nd(t)
        if n[0] == "fld":
            if not n[2].startswith("#"):
                out.append(n[2])
            t = n[1]
        elif n[0] == "arg":
            out.append(n[2])
            return tuple(reversed(out))
        else:
            return None


PICK = ("min_by", "max_by", "min_by_key", "max_by_key", "last", "first", "nth", "reduce", "min", "max", "choose", "get", "pop",
        "next", "swap_remove", "remove")


def is_pick(t):
    """a call whose (payload) result is an element of its first argument"""
    n = nd(t)
    return n[0] == "call" and leafname(n[1]) in PICK and len(n[2]) >= 1 and \
        any(x in n[1] for x in ("Iterator", "slice", "[T]", "Vec", "iter"))


def chain(t):
    comps = []
    while nd(t)[0] == "fld":
        comps.append(nd(t)[2])
        t = nd(t)[1]
    return t, comps[::-1]


def unchain(t, comps):
    for c in comps:
        t = project(t, c)
    return t


_sub = {}


def rebuild(t, fn):
    """apply fn top-down: fn(t) -> replacement or None to descend"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        memo[t] = t
        r = fn(t)
        if r is None:
            n = nd(t)
            k = n[0]
            if k == "agg":
                r = agg(n[1], n[2], n[3], [go(x) for x in n[4]])
            elif k == "bin":
                r = binop(n[1], go(n[2]), go(n[3]), n[4])
            elif k in ("un", "cast"):
                r = mk(k, n[1], go(n[2]))
            elif k == "fld":
                b = go(n[1])
                r = project(b, n[2]) if b != n[1] else t
            elif k == "at":
                r = project(go(n[1]), ("[]", go(n[2])))
            elif k == "call":
                r = mk("call", n[1], tuple(go(x) for x in n[2]), n[3])
            elif k in ("next", "elem", "nextsome", "idx"):
                r = mk(k, go(n[1]), n[2])
            elif k == "upd":
                r = mk("upd", go(n[1]), n[2], go(n[3]))
            elif k == "push":
                r = mk("push", go(n[1]), go(n[2]))
            elif k == "discr":
                r = mk("discr", go(n[1]), n[2])
            else:
                r = t
        memo[t] = r
        return r
    return go(t)


def subst(t, a, b):
    return rebuild(t, lambda x: b if x == a else None)


def remark(t, mark):
    """give the anonymous element/index markers '*' of one access a common name"""
    def f(x):
        n = nd(x)
        if n[0] in ("elem", "idx") and n[2] == "*":
            return mk(n[0], n[1], mark)
        return None
    return rebuild(t, f)


# ---- formulas ----------------------------------------------------------------------------------
def mapatoms(f, fn):
    """rebuild formula f with every atom replaced by the formula fn(atom)"""
    memo = {}

    def go(x):
        if x < 2:
            return x
        r = memo.get(x)
        if r is None:
            v, lo, hi = B.nodes[x]
            r = memo[x] = B.ite(fn(B.vars[v]), go(hi), go(lo))
        return r
    return go(f)


def atom_terms(a, fn):
    """atom with its terms mapped by fn (a formula, normal form restored)"""
    k = a[0]
    if k in ("b", "nan"):
        return B.var((k, fn(a[1])))
    if k == "is":
        return B.var(("is", fn(a[1]), a[2]))
    if k == "lt":
        x, y = fn(a[1]), fn(a[2])
        if a[3] == "i" and x > y:
            return B.AND(B.NOT(B.var(("lt", y, x, "i"))), B.NOT(B.var(("eq", y, x, "i"))))
        return B.var(("lt", x, y, a[3]))
    if k == "eq":
        x, y = sorted((fn(a[1]), fn(a[2])))
        return B.var(("eq", x, y, a[3]))
    if k == "exists":
        body = mapatoms(a[2], lambda b: atom_terms(b, fn))
        return B.var(("exists", tuple(sorted(fn(d) for d in a[1])), body, a[3])) if body else 0
    return B.var(a)


def mapf(f, fn):
    return mapatoms(f, lambda a: atom_terms(a, fn))


def atoms(f):
    return [B.vars[v] for v in B.support(f)]


def tri(f, notnan=()):
    """order axioms of the float comparisons in f: at most one of <, =, > and, unless an operand is NaN, exactly one"""
    ax, pairs = 1, set()
    for a in atoms(f):
        if a[0] in ("lt", "eq") and a[3] == "f":
            pairs.add(tuple(sorted((a[1], a[2]))))
    for x, y in pairs:
        l, g, e = B.var(("lt", x, y, "f")), B.var(("lt", y, x, "f")), B.var(("eq", x, y, "f"))
        nx = 0 if x in notnan or is_const(x) else B.var(("nan", x))
        ny = 0 if y in notnan or is_const(y) else B.var(("nan", y))
        nan = B.OR(nx, ny)
        one = B.OR(B.OR(l, g), e)
        ax = B.AND(ax, B.ite(nan, B.NOT(one), one))
        ax = B.AND(ax, B.NOT(B.OR(B.AND(l, g), B.OR(B.AND(l, e), B.AND(g, e)))))
    return ax


def isx(f):
    ax, by = 1, {}
    for a in atoms(f):
        if a[0] == "is":
            by.setdefault(a[1], []).append(B.var(a))
    for l in by.values():
        for i in range(len(l)):
            for j in range(i):
                ax = B.AND(ax, B.NOT(B.AND(l[i], l[j])))
    return ax


def implies(f, g, notnan=(), assume=1):
    bad = B.AND(B.AND(f, B.NOT(g)), assume)
    if bad == 0:
        return True
    return B.AND(B.AND(bad, tri(bad, notnan)), isx(bad)) == 0


def equiv(f, g, notnan=(), assume=1):
    return implies(f, g, notnan, assume) and implies(g, f, notnan, assume)


def named(*k):
    return B.var(("named",) + k)


V_, LO_, HI_ = mk("sym", "value"), mk("sym", "lower"), mk("sym", "upper")


def lt(a, b):
    return B.var(("lt", a, b, "f"))


def eqf(a, b):
    a, b = sorted((a, b))
    return B.var(("eq", a, b, "f"))


def le(a, b):
    return B.OR(lt(a, b), eqf(a, b))


def nan(a):
    return B.var(("nan", a))


def bound_of(t, isb):
    """t = bounds[[i, k]] in one of its spellings -> (k, row) with row an opaque position"""
    n = nd(t)
    if n[0] == "at":
        b, i = n[1], n[2]
        ni = nd(i)
        if isb(b) and ni[0] == "agg" and len(ni[4]) == 2 and is_const(ni[4][1]):
            return nd(ni[4][1])[1], rowpos(ni[4][0])
        nb = nd(b)
        if is_const(i):
            if nb[0] == "elem" and rows_of(nb[1], isb):
                return nd(i)[1], ("d", nb[2])
            if nb[0] == "call" and leafname(nb[1]) in ("row", "index_axis") and isb(nb[2][0]):
                return nd(i)[1], rowpos(nb[2][-1])
        if nb[0] == "call" and leafname(nb[1]) in ("column",) and isb(nb[2][0]) and is_const(nb[2][1]):
            return nd(nb[2][1])[1], rowpos(i)
    if n[0] == "elem":
        nb = nd(n[1])
        if nb[0] == "call" and leafname(nb[1]) == "column" and isb(nb[2][0]) and is_const(nb[2][1]):
            return nd(nb[2][1])[1], ("d", n[2])
    return None


def rows_of(t, isb):
    n = nd(t)
    return isb(t) or (n[0] == "call" and leafname(n[1]) in ("outer_iter", "rows", "axis_iter", "genrows") and n[2] and isb(n[2][0]))


def rowpos(i):
    n = nd(i)
    if n[0] in ("idx", "elem"):
        return ("d", n[2])
    return ("t", i)


def is_bounds(t):
    n = nd(t)
    return n[0] == "call" and leafname(n[1]) == "variable_bounds" or (n[0] == "fld" and n[2] == "bounds" and fieldpath(t) is not None)


def oob_atom(a, isp, isb=is_bounds):
    """a = exists j. point[j] is NaN or outside its bounds -> the point term"""
    if a[0] != "exists":
        return None
    hit, rows = [], set()

    def sub(t):
        b = bound_of(t, isb)
        if b is not None and b[0] in (0, 1):
            rows.add(b[1])
            return LO_ if b[0] == 0 else HI_
        n = nd(t)
        if n[0] == "elem" and isp(n[1]):
            hit.append(n[1])
            rows.add(("d", n[2]))
            return V_
        if n[0] == "at" and isp(n[1]):
            hit.append(n[1])
            rows.add(rowpos(n[2]))
            return V_
        return None
    f = mapf(a[2], lambda t: rebuild(t, sub))
    want = B.OR(nan(V_), B.OR(lt(V_, LO_), lt(HI_, V_)))
    if not hit or len(set(hit)) != 1 or len(rows) != 1:
        return None
    for d in a[1]:
        if any(nd(x)[0] == "agg" and nd(x)[1] in ("models::Take", "models::Skip", "models::StepBy") for x in subterms(d)):
            return None
    if not equiv(f, want, (LO_, HI_)):
        return None
    return hit[0]


def replace_atoms(f, fn):
    """fn(atom) -> formula or None"""
    def g(a):
        r = fn(a)
        return B.var(a) if r is None else r
    return mapatoms(f, g)
