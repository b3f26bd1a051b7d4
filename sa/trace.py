"""Paths from one node under an assumption on the outcome of a call, following values through joins (path-sensitive)."""
from terms import mk, nd, project, UNDEF, subterms


class Trace:
    """follow(start, {term: variant}): every node that can run after `start` when the given results have the given variants"""
    def __init__(self, A, limit=60000, variants=("Err", "Break")):
        self.A, self.limit, self.variants = A, limit, variants
        self.byn, self.memo = {}, {}
        for (nid, k) in A.phis:
            self.byn.setdefault(nid, []).append(k)

    def resolve(self, t, env, d=0):
        n = nd(t)
        if d > 60:
            return t
        if n[0] == "phi":
            v = env.get(t)
            return t if v is None else v
        if n[0] == "fld":
            b = self.resolve(n[1], env, d + 1)
            return t if b == n[1] else project(b, n[2])
        if n[0] == "discr":
            b = self.resolve(n[1], env, d + 1)
            return t if b == n[1] else mk("discr", b, *n[2:])
        if n[0] == "agg":
            ops = tuple(self.resolve(x, env, d + 1) for x in n[4])
            return t if ops == n[4] else mk("agg", n[1], n[2], n[3], ops)
        if n[0] == "un":
            b = self.resolve(n[2], env, d + 1)
            if nd(b)[0] == "c" and n[1] == "Not":
                return mk("c", 1 - int(nd(b)[1]), *nd(b)[2:])
        return t

    def interesting(self, v, known):
        """values that carry the outcome: the result itself, what is made from it, and error variants"""
        n = nd(v)
        if n[0] == "agg" and (n[2] in self.variants or n[2] == "Some" and n[4] and nd(n[4][0])[0] == "agg" and nd(n[4][0])[2] == "Err"):
            return True
        if v in known:
            return True
        k = (v, frozenset(known))
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = any(x in known for x in subterms(v)) if n[0] in ("agg", "fld") else False
        return r

    def targets(self, n, env, known):
        A = self.A
        succ = [s for s in n.succ if (n.id, s) in A.feas]
        if n.t[0] != "switch" or len(succ) < 2:
            return succ
        x = self.resolve(A.operand(A.sout[n.id], n.t[1]), env)
        y = nd(x)
        val = None
        if y[0] == "c" and isinstance(y[1], int):
            val = y[1]
        elif y[0] == "discr":
            b = nd(y[1])
            name = known.get(y[1]) or (b[2] if b[0] == "agg" else None)
            if name is None:
                name = known.get(A.simp(y[1]))
            for dv, nm in y[2]:
                if nm == name:
                    val = dv
        if val is None:
            return succ
        for a, t in n.t[3]:
            if a == val:
                return [t] if t in succ else []
        return [n.t[4]] if n.t[4] in succ else []

    def follow(self, starts, known, stop=()):
        """-> (visited nodes, [(exit node, resolved return value)])"""
        A = self.A
        seen, nodes, exits = set(), set(), []
        st = [(s, p, ()) for p, s in starts]
        ex = set(A.exits())
        while st:
            v, u, e = st.pop()
            env = dict(e)
            for k in self.byn.get(v, ()):
                t = mk("phi", A.uid, v, k)
                op = A.phis[(v, k)].get(u)
                if op is None:
                    env.pop(t, None)
                    continue
                x = self.resolve(op, e if isinstance(e, dict) else dict(e))
                if self.interesting(x, known):
                    env[t] = x
                else:
                    env.pop(t, None)
            key = (v, tuple(sorted(env.items())))
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > self.limit:
                raise RuntimeError("too many paths")
            nodes.add(v)
            if v in stop:
                continue
            if v in ex:
                exits.append((v, self.resolve(A.ret_at(v), env)))
            for s in self.targets(A.nodes[v], env, known):
                st.append((s, v, key[1]))
        return nodes, exits
