"""Graph utilities: RPO, dominators, natural loops."""


def rpo(entry, succ):
    seen, order = set(), []
    st = [(entry, iter(succ(entry)))]
    seen.add(entry)
    while st:
        n, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ(s))))
                break
        else:
            order.append(n)
            st.pop()
    order.reverse()
    return order


def dominators(order, preds):
    num = {n: i for i, n in enumerate(order)}
    idom = {order[0]: order[0]}
    changed = True
    while changed:
        changed = False
        for n in order[1:]:
            new = None
            for p in preds(n):
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while num[a] > num[b]:
                                a = idom[a]
                            while num[b] > num[a]:
                                b = idom[b]
                        new = a
            if new is not None and idom.get(n) != new:
                idom[n] = new
                changed = True
    return idom, num


class Flow:
    """succ/pred graph with dominators and loop forest (reducible graphs)."""

    def __init__(self, entry, succ, pred):
        self.entry = entry
        self.order = rpo(entry, succ)
        live = set(self.order)
        self.succ = {n: [s for s in succ(n) if s in live] for n in self.order}
        self.pred = {n: [] for n in self.order}
        for n in self.order:
            for s in self.succ[n]:
                self.pred[s].append(n)
        self.idom, self.num = dominators(self.order, lambda n: self.pred[n])
        self.loops = {}     # header -> body set
        self.back = set()
        for n in self.order:
            for s in self.succ[n]:
                if self.dom(s, n):
                    self.back.add((n, s))
                    body = self.loops.setdefault(s, {s})
                    st = [n]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st += self.pred[x]
        # innermost-first list of loop headers containing each node
        self.inl = {n: [] for n in self.order}
        for h in sorted(self.loops, key=lambda h: len(self.loops[h])):
            for n in self.loops[h]:
                self.inl[n].append(h)

    def dom(self, a, b):
        num = self.num
        if a not in num or b not in num:
            return False
        while num[b] > num[a]:
            b = self.idom[b]
        return a == b


def postdominators(flow, exits):
    """immediate post-dominators w.r.t. a virtual exit (None)."""
    V = -1
    succ = {n: list(flow.succ[n]) for n in flow.order}
    rs = {n: [] for n in flow.order}
    rs[V] = list(exits)
    for n in flow.order:
        for s in succ[n]:
            rs[s].append(n)
    order = rpo(V, lambda n: rs[n])
    live = set(order)
    pr = {n: [] for n in order}
    for n in order:
        for s in rs[n]:
            pr[s].append(n)
    idom, num = dominators(order, lambda n: pr[n])
    return idom, num, V
