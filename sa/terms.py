"""Hash-consed value terms (global tables, so that terms and formulas are comparable across entries)."""
from bdd import BDD

_tab = {}
_nodes = []
B = BDD()


def mk(*key):
    i = _tab.get(key)
    if i is None:
        i = len(_nodes)
        _nodes.append(key)
        _tab[key] = i
    return i


def nd(i):
    return _nodes[i]


UNDEF = mk("undef")


def const(v, ty):
    return mk("c", v, ty)


TRUE, FALSE = const(1, "bool"), const(0, "bool")
UNIT = mk("agg", "tuple", "", (), ())


def is_const(t):
    return nd(t)[0] == "c"


def agg(name, var, names, ops):
    return mk("agg", name, var, tuple(names), tuple(ops))


def project(t, comp):
    n = nd(t)
    k = n[0]
    if k == "agg":
        if isinstance(comp, str):
            if comp.startswith("#"):
                if n[2] == comp[1:] or n[2] == "":
                    return t
                return UNDEF
            if comp in n[3]:
                return n[4][n[3].index(comp)]
        elif comp[0] == "[]" and n[1] == "array" and is_const(comp[1]):
            v = nd(comp[1])[1]
            if isinstance(v, int) and v < len(n[4]):
                return n[4][v]
    elif k == "upd":
        path = n[2]
        if path[0] == comp:
            if len(path) == 1:
                return n[3]
            return mk("upd", project(n[1], comp), path[1:], n[3])
        if isinstance(comp, str) and isinstance(path[0], str):
            return project(n[1], comp)
        if not isinstance(comp, str) and not isinstance(path[0], str) and comp[0] == "[]" and path[0][0] == "[]" and \
                is_const(comp[1]) and is_const(path[0][1]):
            return project(n[1], comp)
    elif k == "call" and n[1] == "models::nextmut":
        if comp == "#Some":     # a reference to an element
            return mk("agg", "std::option::Option", "Some", ("0",), (n[2][1],))
    elif k == "next":
        if comp == "#Some":
            return mk("nextsome", n[1], n[2])
    elif k == "nextsome":
        if comp == "0":
            return mk("elem", n[1], n[2])
    elif k == "bin" and n[1].endswith("WithOverflow"):
        if comp == "0":
            return binop(n[1][:-12], n[2], n[3], n[4])
        return mk("ovf", t)
    elif k == "undef":
        return t
    if not isinstance(comp, str) and comp[0] == "[]":
        return mk("at", t, comp[1])
    return mk("fld", t, comp)


COMM = {"Add", "Mul", "Eq", "Ne", "BitAnd", "BitOr", "BitXor"}
FLIP = {"Gt": "Lt", "Ge": "Le"}


def binop(op, a, b, ty):
    op = op.replace("Unchecked", "")
    if op in FLIP:
        op, a, b = FLIP[op], b, a
    if op in COMM and a > b:
        a, b = b, a
    na, nb = nd(a), nd(b)
    if na[0] == "c" and nb[0] == "c" and isinstance(na[1], int) and isinstance(nb[1], int):
        x, y = na[1], nb[1]
        if op == "Lt":
            return TRUE if x < y else FALSE
        if op == "Le":
            return TRUE if x <= y else FALSE
        if op == "Eq":
            return TRUE if x == y else FALSE
        if op == "Ne":
            return TRUE if x != y else FALSE
        if op == "Add":
            return const(x + y, na[2])
        if op == "Sub" and x >= y:
            return const(x - y, na[2])
        if op == "Mul":
            return const(x * y, na[2])
    for x, y, n in ((a, b, nb), (b, a, na)):
        # neutral operands (of integers only: 0.0 + x is not x for -0.0)
        if n[0] == "c" and not isinstance(n[1], (float, str)) and n[2] in ("usize", "u64", "u32", "i32", "i64"):
            if n[1] == 0 and (op == "Add" or op == "Sub" and y == b) or n[1] == 1 and (op == "Mul" or op == "Div" and y == b):
                return x
    return mk("bin", op, a, b, ty)


def children(t):
    n = nd(t)
    k = n[0]
    if k == "agg":
        return list(n[4])
    if k == "bin":
        return [n[2], n[3]]
    if k in ("un", "cast"):
        return [n[2]]
    if k in ("fld",):
        return [n[1]]
    if k == "at":
        return [n[1], n[2]]
    if k == "call":
        return list(n[2])
    if k in ("next", "elem", "nextsome", "idx"):
        return [n[1]]
    if k == "upd":
        return [n[1], n[3]]
    if k in ("discr", "ovf"):
        return [n[1]]
    if k == "push":
        return [n[1], n[2]]
    return []


def subterms(t, through=None):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st += children(x)
        if through:
            st += through(x)
    return seen


def shown(t, depth=8, phi=None):
    n = nd(t)
    k = n[0]
    if depth == 0:
        return "…"
    r = lambda x: shown(x, depth - 1, phi)
    if k == "c":
        return str(n[1])
    if k == "fnitem":
        return short(n[1])
    if k == "arg":
        return n[2] or f"arg{n[1]}"
    if k == "fld":
        c = n[2]
        if isinstance(c, str) and c.startswith("#"):
            return f"{r(n[1])}"
        return f"{r(n[1])}.{c}"
    if k == "at":
        return f"{r(n[1])}[{r(n[2])}]"
    if k == "bin":
        sy = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Lt": "<", "Le": "<=", "Eq": "==", "Ne": "!=", "Rem": "%"}.get(n[1], n[1])
        return f"({r(n[2])} {sy} {r(n[3])})"
    if k == "un":
        return f"{n[1]}({r(n[2])})"
    if k == "cast":
        return f"({r(n[2])} as {n[1]})"
    if k == "call":
        return f"{short(n[1])}({', '.join(map(r, n[2]))})" + (f"@{n[3]}" if n[3] != "" else "")
    if k == "agg":
        nm = short(n[1]) + ("::" + n[2] if n[2] and not n[1].endswith(n[2]) else "")
        return nm + "{" + ", ".join(f"{a}:{r(o)}" for a, o in zip(n[3], n[4])) + "}"
    if k == "next":
        return f"next({r(n[1])})"
    if k == "elem":
        return f"elem({r(n[1])})"
    if k == "mref":
        return "&mut " + showloc(n[1])
    if k == "phi":
        return f"phi#{n[2]}:{showloc(n[3])}"
    if k == "mut":
        return f"mut@{n[2]}.{n[3]}"
    if k == "upd":
        return f"{r(n[1])}{{{n[2]}:={r(n[3])}}}"
    if k == "push":
        return f"push({r(n[1])}, {r(n[2])})"
    if k == "discr":
        return f"discr({r(n[1])})"
    return str(n)


def short(p):
    import re
    p = re.sub(r"::<[^<>]*>", "", p)
    p = re.sub(r"<impl [^>]*>+", "", p)
    seg = p.replace("::::", "::").split("::")
    return "::".join(seg[-2:])


def showloc(l):
    r = l[0]
    if r[0] == "A":
        s = f"*arg{r[1]}"
    elif r[0] == "L":
        s = f"_{r[1]}"
    else:
        s = f"*({shown(r[1], 4)})"
    for c in l[1:]:
        s += f".{c}" if isinstance(c, str) else f"[{shown(c[1], 3)}]"
    return s
