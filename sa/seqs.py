"""Collections as sequences: how a collection was built from another one, element by element.

walk(t) follows a collection back through loops that push one element per source element, iterator adapters, slices and
joins, and returns the alternatives (condition, operations from the source to t, source).  Operations:
  ("map", h)            loop h pushes one element per element, in order
  ("filter", h, F)      loop h pushes an element exactly if F (over the element of its domain)
  ("skip", n) ("take", n) ("slice", a, b) ("rev",) ("step", n)
  ("batch",)            one chunk of a complete chunking
  ("permute", name) ("remove", name)
  ("unknown", why)
"""
from terms import *
from q import *
from q import PERMUTE, REMOVE
from lib import AND, OR, NOT, sat


class Seqs:
    def __init__(self, A, q):
        self.A, self.q, self.fl = A, q, A.flow
        self._ev = {}
        for e in A.events():
            if self.fl.inl.get(e.node):
                self._ev.setdefault(self.fl.inl[e.node][0], []).append(e)
        self._own = {}

    # ---- loops
    def exits(self, h):
        """edges leaving loop h with their condition relative to its header"""
        body = self.fl.loops[h]
        return {(u, v): f for (u, v), f in self.A.region(h)[1].items() if u in body and v not in body and f != 0}

    def own(self, h):
        """domains whose exhaustion ends loop h"""
        if h not in self._own:
            out = []
            back = OR(*[f for e, f in self.A.region(h)[1].items() if e in self.fl.back and e[1] == h])
            for u in self.fl.loops[h]:
                if self.fl.inl[u][0] != h:
                    continue
                for v in self.fl.succ[u]:
                    for a in atoms(self.A.edge_cond(u, v)):
                        if a[0] == "is" and a[2] == "Some" and nd(a[1])[0] == "next" and implies(back, B.var(a)) and nd(a[1])[1] not in out:
                            out.append(nd(a[1])[1])
            self._own[h] = out
        return self._own[h]

    def done(self, h):
        """condition (at the header) that loop h has gone through its whole domain"""
        r = 0
        for f in self.exits(h).values():
            for a in atoms(f):
                if a[0] == "is" and a[2] == "Some" and nd(a[1])[0] == "next" and nd(a[1])[1] in self.own(h):
                    r = OR(r, NOT(B.var(a)))
        c = self.counter(h)
        if c:
            r = OR(r, c[3])
        return r

    def notes(self, h):
        out = []
        for e in sorted(self._ev.get(h, ()), key=lambda e: self.fl.num[e.node]):
            nm = leafname(e.path)
            if nm.startswith("note_"):
                op = (nm[5:],) + tuple(self.A.simp(x) for x in e.args)
                out.append(op)
        return out[::-1]

    def counter(self, h):
        """loop h counts a variable up to a limit -> (phi, start, step or end terms, done condition)"""
        A = self.A
        for (n, l) in A.phis:
            if n != h:
                continue
            t = A.simp(mk("phi", A.uid, h, l))
            if nd(t)[0] != "phi":
                continue
            ops = A.phi_ops(t)
            init = {A.simp(v) for p, v in ops.items() if (p, h) not in self.fl.back and v != UNDEF}
            back = {x for p, v in ops.items() if (p, h) in self.fl.back and v != UNDEF for _, x in self.q.cases(v)}
            if len(init) != 1 or len(back) != 1 or t in back:
                continue
            step = back.pop()
            done = 0
            for f in self.exits(h).values():
                for a in atoms(f):
                    if a[0] in ("lt", "eq") and a[3] == "i" and t in a[1:3]:
                        lim = a[2] if a[1] == t else a[1]
                        ge = NOT(A.cond(binop("Lt", t, lim, "usize")))
                        if implies(f, ge):
                            done = OR(done, ge)
            if done:
                return t, init.pop(), step, done
        return None

    def element(self, h, x):
        s, o = self._element(h, x)
        return s, [z for z in o if not whole(self.A, z)]

    def _element(self, h, x):
        """where loop h takes the element it handles from: (source collection, operations), x is a term that contains the element"""
        A = self.A
        for d in self.own(h):
            if is_range(d):
                for y in subterms(x):
                    n = nd(y)
                    if n[0] == "at" and nd(A.simp(n[2]))[0] == "elem" and A.simp(nd(A.simp(n[2]))[1]) == A.simp(d):
                        r = nd(d)[4]
                        incl = "Inclusive" in nd(d)[1]
                        return A.simp(n[1]), [("slice", A.simp(r[0]), A.simp(r[1]), A.simp(n[1])) if not incl else ("unknown", "inclusive range")] + self.notes(h)
                continue
        ds = [d for d in self.own(h) if not is_range(d)]
        if len(ds) == 1:
            return A.simp(ds[0]), self.notes(h)
        if len(ds) > 1:
            inx = set(subterms(x))
            first = [d for d in ds if any(nd(y)[0] == "elem" and A.simp(nd(y)[1]) == A.simp(d) for y in inx)] or ds
            return A.simp(first[0]), [("zip", A.simp(d)) for d in ds if d != first[0]] + self.notes(h)
        c = self.counter(h)
        if c and not self.own(h):
            t, init, step, done = c
            inc = A.simp(binop("Add", t, const(1, "usize"), "usize"))
            for y in subterms(x):
                n = nd(y)
                if n[0] == "at" and A.simp(n[2]) == t and A.simp(step) == inc:
                    lims = [z for f in self.exits(h).values() for a in atoms(f) if a[0] in ("lt", "eq") and t in a[1:3] for z in a[1:3] if z != t]
                    return A.simp(n[1]), [("slice", A.simp(init), A.simp(lims[0]), A.simp(n[1]))]
        return None, [("unknown", f"loop at {h}")]

    # ---- collections
    def walk(self, t, d=0, seen=()):
        A, q = self.A, self.q
        t = A.simp(t)
        if d > 25 or t in seen:
            return [(1, [("unknown", "recursion")], t)]
        seen = seen + (t,)
        n = nd(t)

        def go(inner, *ops):
            ops = [o for o in ops if not whole(A, o)]
            return [(g, o + [x for x in ops], b) for g, o, b in self.walk(inner, d + 1, seen)]
        cs = q.cases(t)
        if len(cs) > 1 or cs[0][1] != t:
            out = []
            for g, x in cs:
                out += [(AND(g, g2), o, b) for g2, o, b in self.walk(x, d + 1, seen) if AND(g, g2) != 0]
            return out
        if n[0] == "phi" and n[1] == A.uid and n[2] in self.fl.loops:
            h = n[2]
            ops = q.ops(t)
            init = [v for p, v in ops.items() if (p, h) not in self.fl.back and v != UNDEF]
            if all(q.is_empty(A.simp(v)) for v in init) and init:
                pushes, keep = [], False
                for p, v in ops.items():
                    if (p, h) not in self.fl.back or v == UNDEF:
                        continue
                    for g, x in q.cases(v):
                        if x == t:
                            keep = True
                        elif nd(x)[0] == "push" and A.simp(nd(x)[1]) == t:
                            if x not in pushes:
                                pushes.append(x)
                        else:
                            return [(1, [("unknown", f"{h}")], t)]
                if pushes:
                    F, src = 0, None
                    for x in pushes:
                        for m in q.pushnodes(x):
                            if self.fl.inl[m] and self.fl.inl[m][0] == h:
                                F = OR(F, A.rel(h, m))
                        s = self.element(h, A.simp(nd(x)[2]))
                        if src is not None and s != src:
                            return [(1, [("unknown", "two sources")], t)]
                        src = s
                    if src[0] is None:
                        return [(1, src[1], t)]
                    F = self.strip(h, F)
                    return go(src[0], *src[1], ("map", h) if F == 1 or not keep else ("filter", h, F))
            # a slice that loses its front in every pass: while !rest.is_empty() { (batch, rest) = rest.split_at(..) }
            back = {x for p, v in ops.items() if (p, h) in self.fl.back and v != UNDEF for _, x in q.cases(v)}
            if len(back) == 1 and len(set(map(A.simp, init))) == 1:
                b = nd(back.pop())
                if b[0] == "fld" and b[2] == "1":
                    s = nd(b[1])
                    if s[0] == "call" and leafname(s[1]) == "split_at" and A.simp(s[2][0]) == t:
                        return go(A.simp(init[0]), ("rest", h))
            return [(1, [], t)]
        if n[0] == "agg" and n[1].startswith("models::"):
            nm = n[1][8:]
            if nm == "Take":
                return go(n[4][0], ("take", A.simp(n[4][1])))
            if nm == "Skip":
                return go(n[4][0], ("skip", A.simp(n[4][1])))
            if nm == "StepBy":
                return go(n[4][0], ("step", A.simp(n[4][1])))
            if nm == "Rev":
                return go(n[4][0], ("rev",))
            if nm in ("Enumerate", "Inspect", "Cloned", "Copied"):
                return go(n[4][0])
            if nm == "Zip":
                return go(n[4][0], ("zip", A.simp(n[4][1])))
            return [(1, [("unknown", nm)], t)]
        if n[0] == "mut" and n[1] == A.uid:
            res, path, args, old, l = A.mutinfo[(n[2], n[3])]
            nm = leafname(path)
            if nm in PERMUTE:
                return go(old, ("permute", nm))
            if nm in REMOVE or nm in ("truncate", "retain", "dedup", "resize"):
                return go(old, ("remove", nm))
            return [(1, [("unknown", nm)], t)]
        if n[0] == "elem":
            s = nd(A.simp(n[1]))
            if s[0] == "call" and leafname(s[1]) == "chunks":
                return go(s[2][0], ("batch",))
            if s[0] == "call" and leafname(s[1]) in ("chunks_exact", "windows", "rchunks"):
                return go(s[2][0], ("unknown", leafname(s[1])))
        if n[0] == "at" and is_range(A.simp(n[2])):
            r = nd(A.simp(n[2]))
            if "RangeFrom" in r[1]:
                return go(n[1], ("skip", A.simp(r[4][0])))
            if "RangeTo" in r[1]:
                return go(n[1], ("take", A.simp(r[4][0])))
            if "RangeFull" in r[1]:
                return go(n[1])
            lo, hi = A.simp(r[4][0]), A.simp(r[4][1])
            # a window that moves on by its own length in every pass
            p = nd(lo)
            if p[0] == "phi" and p[1] == A.uid and p[2] in self.fl.loops:
                c = self.counter(p[2])
                if c and c[0] == lo and nd(c[1])[0] == "c" and nd(c[1])[1] == 0:
                    width = self.window(lo, hi, A.simp(n[1]))
                    if width is not None and A.simp(c[2]) in (hi, A.simp(binop("Add", lo, width, "usize"))):
                        return go(n[1], ("batch",))
            return go(n[1], ("slice", lo, hi, A.simp(n[1])))
        if n[0] == "fld" and n[2] == "0":
            s = nd(n[1])
            if s[0] == "call" and leafname(s[1]) == "split_at":
                inner = self.walk(s[2][0], d + 1, seen)
                return [(g, (o[:-1] + [("batch",)]) if o and o[-1][0] == "rest" else o + [("take", A.simp(s[2][1]))], b) for g, o, b in inner]
        if n[0] == "call" and leafname(n[1]) in ("to_vec", "into_vec", "from_vec", "from", "into_iter", "iter", "as_slice", "to_owned", "clone", "cloned", "copied", "into_boxed_slice", "collect") and len(n[2]) == 1:
            return go(n[2][0])
        return [(1, [], t)]

    def window(self, lo, hi, v):
        """hi = min(lo + w, len(v)) -> w"""
        A = self.A
        n = nd(hi)
        if n[0] == "call" and leafname(n[1]) == "min":
            for x, y in (n[2], n[2][::-1]):
                ny = nd(A.simp(y))
                if ny[0] == "call" and ny[1] == "len":
                    m = nd(A.simp(x))
                    if m[0] == "bin" and m[1] == "Add" and lo in (m[2], m[3]):
                        return m[3] if m[2] == lo else m[2]
                    if m[0] == "call" and leafname(m[1]) in ("saturating_add", "wrapping_add") and lo == A.simp(m[2][0]):
                        return A.simp(m[2][1])
        return None

    def strip(self, h, F):
        """F without the tests that loop h is not finished, and assuming results are Ok (an error ends the run)"""
        for a in list(atoms(F)):
            if a[0] == "is" and nd(a[1])[0] == "next" and a[2] == "Some" and nd(a[1])[1] in self.own(h):
                F = B.restrict(F, B.vidx[a], True)
        return F


def whole(A, o):
    """a slice of everything"""
    return o[0] == "slice" and nd(o[1])[0] == "c" and nd(o[1])[1] == 0 and not limits(A, o[2], o[3])


def interval(A, ops, iterations):
    """positions of the source that the operations keep -> (first position, set of upper limits) or None"""
    lo, hi = None, set()
    zero = lambda t: nd(t)[0] == "c" and nd(t)[1] == 0
    for o in ops:
        if o[0] in ("map", "batch", "zip"):
            continue
        if o[0] == "take":
            n = nd(o[1])
            if lo is None:
                hi |= limits(A, o[1])
            elif n[0] == "call" and leafname(n[1]) == "saturating_sub" and A.simp(n[2][1]) == lo:
                hi |= limits(A, A.simp(n[2][0]))
            elif n[0] == "bin" and n[1] == "Sub" and A.simp(n[3]) == lo:
                hi |= limits(A, A.simp(n[2]))
            else:
                return None
        elif o[0] == "skip":
            if not zero(o[1]):
                if lo is not None:
                    return None
                lo = o[1]
        elif o[0] == "slice":
            if lo is not None:
                return None
            lo = None if zero(o[1]) else o[1]
            hi |= limits(A, o[2], o[3])
        else:
            return None
    return lo, hi


def limits(A, t, v=None):
    """t as a minimum of limits; the length of the sliced collection v itself is no limit"""
    n = nd(A.simp(t))
    if n[0] == "call" and leafname(n[1]) == "min":
        return limits(A, n[2][0], v) | limits(A, n[2][1], v)
    if n[0] == "call" and n[1] == "len" and v is not None and A.simp(n[2][0]) == v:
        return set()
    return {A.simp(t)}
