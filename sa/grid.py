"""Deciding a formula over a few numeric unknowns by order types: every relation in the formula is a comparison of the unknowns with each other and with constants, so
one representative of each cell the constants cut out stands for the whole cell."""
import itertools
import math
from terms import *
from q import B, leafname

NAN, INF = math.nan, math.inf


class Opaque(Exception):
    pass


def num(t, leaf):
    v = leaf(t)
    if v is not None:
        return v
    n = nd(t)
    if n[0] == "c":
        v = n[1]
        if isinstance(v, (int, float)):
            return v
        s = str(v)
        for k, w in (("NEG_INFINITY", -INF), ("INFINITY", INF), ("NAN", NAN), ("EPSILON", 2.220446049250313e-16), ("f64>::MAX", 1.7976931348623157e308), ("f64>::MIN_POSITIVE", 2.2250738585072014e-308)):
            if s.endswith(k):
                return w
        try:
            return float(s)
        except ValueError:
            raise Opaque(s)
    if n[0] == "bin":
        a, b = num(n[2], leaf), num(n[3], leaf)
        fl = isinstance(a, float) or isinstance(b, float)
        try:
            if n[1].startswith("Add"):
                return a + b
            if n[1].startswith("Sub"):
                return a - b
            if n[1].startswith("Mul"):
                return a * b
            if n[1] == "Div":
                if fl:
                    return a / b if b else (NAN if a == 0 or a != a else math.copysign(INF, a) * math.copysign(1, b))
                return a // b
            if n[1] == "Rem" and not fl:
                return a % b
        except (OverflowError, ZeroDivisionError):
            raise Opaque("arithmetic")
    if n[0] == "un" and n[1] == "Neg":
        return -num(n[2], leaf)
    if n[0] == "call":
        m = leafname(n[1])
        if m == "abs" and len(n[2]) == 1:
            return abs(num(n[2][0], leaf))
        if m in ("max", "min") and len(n[2]) == 2:
            a, b = num(n[2][0], leaf), num(n[2][1], leaf)
            if a != a:
                return b
            if b != b:
                return a
            return max(a, b) if m == "max" else min(a, b)
    raise Opaque(shown(t, 3))


def atom(a, leaf):
    k = a[0]
    if k == "lt":
        return num(a[1], leaf) < num(a[2], leaf)
    if k == "eq":
        return num(a[1], leaf) == num(a[2], leaf)
    if k == "nan":
        x = num(a[1], leaf)
        return x != x
    if k == "b":
        n = nd(a[1])
        if n[0] == "call" and len(n[2]) == 1:
            m, x = leafname(n[1]), num(n[2][0], leaf)
            if m == "is_finite":
                return math.isfinite(x)
            if m == "is_infinite":
                return math.isinf(x)
            if m == "is_nan":
                return x != x
            if m == "is_sign_negative":
                return math.copysign(1, x) < 0
            if m == "is_sign_positive":
                return math.copysign(1, x) > 0
            if m == "is_normal":
                return math.isfinite(x) and abs(x) >= 2.2250738585072014e-308
    raise Opaque(str(k))


def holds(f, leaf, other=None):
    """truth of f; other(atom) decides what is not about the unknowns"""
    cache = {}
    while f > 1:
        v, lo, hi = B.nodes[f]
        a = B.vars[v]
        r = other(a) if other else None
        if r is None:
            r = atom(a, leaf)
        f = hi if r else lo
    return f == 1


def constants(fs):
    out, seen = set(), set()
    for f in fs:
        for v in B.support(f):
            consts_of(B.vars[v], out, seen)
    return out


def consts_of(a, out, seen):
    for x in a[1:]:
        if a[0] == "exists":
            break
        if type(x) is int and a[0] in ("lt", "eq", "nan", "b"):
            for s in subterms(x):
                if nd(s)[0] == "c":
                    try:
                        out.add(num(s, lambda t: None))
                    except Opaque:
                        pass


FLOATS = [NAN, -INF, -1.7e308, -1e300, -1.0, -1e-300, -0.0, 0.0, 5e-324, 1e-300, 1e-16, 0.5, 1.0, 2.0, 1e300, 1.7e308, INF]
INTS = [0, 1, 2, 3, 4, 5, 7, 1000, 2 ** 40]


def floats(consts):
    s = list(FLOATS)
    for c in consts:
        if isinstance(c, float) and math.isfinite(c) and c not in s:
            s += [c, math.nextafter(c, INF), math.nextafter(c, -INF)]
    return s


def ints(consts):
    s = set(INTS)
    for c in consts:
        if isinstance(c, int) and not isinstance(c, bool) and c >= 0:
            s |= {max(c - 1, 0), c, c + 1, 2 * c}
    return sorted(s)
