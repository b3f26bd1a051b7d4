"""Small reduced ordered BDDs.  Variables are created on first use; 0 and 1 are the terminals."""


class BDD:
    def __init__(self):
        self.nodes = [(-1, 0, 0), (-1, 1, 1)]
        self.uniq = {}
        self.vars = []      # index -> atom key
        self.vidx = {}
        self.cache = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = r
        return r

    def var(self, key):
        i = self.vidx.get(key)
        if i is None:
            i = len(self.vars)
            self.vars.append(key)
            self.vidx[key] = i
        return self.mk(i, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        nf, ng, nh = self.nodes[f], self.nodes[g], self.nodes[h]
        v = nf[0]
        if g > 1 and ng[0] < v:
            v = ng[0]
        if h > 1 and nh[0] < v:
            v = nh[0]
        f0, f1 = (nf[1], nf[2]) if nf[0] == v else (f, f)
        g0, g1 = (ng[1], ng[2]) if g > 1 and ng[0] == v else (g, g)
        h0, h1 = (nh[1], nh[2]) if h > 1 and nh[0] == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.cache[k] = r
        return r

    def AND(self, a, b):
        return self.ite(a, b, 0)

    def OR(self, a, b):
        return self.ite(a, 1, b)

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def IMP(self, a, b):
        return self.ite(a, b, 1)

    def support(self, f):
        seen, out, st = set(), set(), [f]
        while st:
            x = st.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.nodes[x]
            out.add(v)
            st += [lo, hi]
        return out

    def restrict(self, f, v, val):
        memo = {}

        def go(x):
            if x < 2:
                return x
            if x in memo:
                return memo[x]
            w, lo, hi = self.nodes[x]
            if w == v:
                r = hi if val else lo
            elif w > v:
                r = x
            else:
                r = self.mk(w, go(lo), go(hi))
            memo[x] = r
            return r
        return go(f)

    def exists(self, f, v):
        return self.OR(self.restrict(f, v, 0), self.restrict(f, v, 1))

    def one_sat(self, f):
        """A satisfying partial assignment {var index: bool} (f != 0)."""
        out = {}
        while f > 1:
            v, lo, hi = self.nodes[f]
            if lo != 0:
                out[v] = False
                f = lo
            else:
                out[v] = True
                f = hi
        return out

    def cubes(self, f, limit=64):
        out = []

        def go(x, acc):
            if len(out) >= limit or x == 0:
                return
            if x == 1:
                out.append(dict(acc))
                return
            v, lo, hi = self.nodes[x]
            acc[v] = False
            go(lo, acc)
            acc[v] = True
            go(hi, acc)
            del acc[v]
        go(f, {})
        return out
