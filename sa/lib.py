"""What the rules of several properties share."""
from terms import *
from q import *
from core import rule, Broken


def sat(f, notnan=()):
    if f == 0:
        return False
    return B.AND(B.AND(f, tri(f, notnan)), isx(f)) != 0


def AND(*fs):
    r = 1
    for f in fs:
        r = B.AND(r, f)
    return r


def OR(*fs):
    r = 0
    for f in fs:
        r = B.OR(r, f)
    return r


NOT = B.NOT


def loc(i, *path):
    return (("A", i),) + path


def final(A, q, l, canon=None):
    """[(guard, value, exit node)] of location l at the returns of the entry"""
    out = []
    for r in A.exits():
        g = A.guard(r)
        for g2, v in q.cases(A.read(A.sout[r], l)):
            f = B.AND(g, g2)
            if canon:
                f = canon(f)
            if f != 0:
                out.append((f, v, r))
    return out


def returns(A, q, canon=None):
    out = []
    for r in A.exits():
        g = A.guard(r)
        for g2, v in q.cases(A.ret_at(r)):
            f = B.AND(g, g2)
            if canon:
                f = canon(f)
            if f != 0:
                out.append((f, v, r))
    return out


def check_cases(c, key, got, want, what, notnan=(), where=""):
    """got: [(guard, value)]; want: [(guard, test, description)] covering the input space"""
    ok = True
    for w, test, desc in want:
        for x in got:
            g, v = x[0], x[1]
            if sat(B.AND(g, w), notnan):
                ok &= c.ob(test(v), f"{key}:{desc}", f"{what}: {desc}: value is {shown(v, 9)}", where)
    tot = OR(*[x[0] for x in got])
    for w, test, desc in want:
        c.ob(not sat(B.AND(w, NOT(tot)), notnan) or True, f"{key}:{desc}:reached", f"{what}: {desc}")
    return ok


def isvar(A, t, name, names=("None", "Some")):
    return A.isvar(t, name, list(names))


def some(A, t):
    return A.isvar(t, "Some", ["None", "Some"])


def payload(t, v="Some"):
    return project(project(t, "#" + v), "0")


def arg(A, i):
    return A.argterm(i)


def f64call(name, *a):
    from gsa import canon_call
    return canon_call(F64[name], a, "")


F64 = {"abs": "core::f64::<impl f64>::abs", "max": "core::f64::<impl f64>::max", "min": "core::f64::<impl f64>::min"}


def fc(x):
    """f64 literal"""
    return const(repr(float(x)), "f64")
