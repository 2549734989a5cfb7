"""Arithmetic on unknown numbers, as a fraction of polynomials (two terms are equal for every value if their fractions are)."""

from .terms import T, is_const, cval, is_call

WRAP = ("float", "int")


def fraction(t):
    """(numerator, denominator), each {sorted tuple of atoms: coefficient}."""
    if is_const(t) and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
        return ({(): cval(t)} if cval(t) else {}), {(): 1}
    if t.op == "bin":
        op, (a, b), (c, d) = t.args[0], fraction(t.args[1]), fraction(t.args[2])
        if op in ("+", "-"):
            return plus(times(a, d), times(c, b), 1 if op == "+" else -1), times(b, d)
        if op == "*":
            return times(a, c), times(b, d)
        if op == "/" and c:
            return times(a, d), times(b, c)
    if t.op == "neg" or t.op == "un" and t.args[0] == "-":
        a, b = fraction(t.args[-1])
        return {k: -v for k, v in a.items()}, b
    if is_call(t, "float") and len(t.args[2]) == 1:
        return fraction(t.args[2][0])
    return {(t,): 1}, {(): 1}


def plus(a, b, s):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


def times(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l, key=id))
            r[m] = r.get(m, 0) + v * w
    return {k: v for k, v in r.items() if v}


def equal(x, y):
    (a, b), (c, d) = fraction(x), fraction(y)
    return times(a, d) == times(c, b)
