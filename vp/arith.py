"""Polynomial normal form for arithmetic terms (over opaque atoms)."""
from __future__ import annotations

from fractions import Fraction

from .terms import Term, const, mk


def _num(t):
    if t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool):
        v = t.args[0]
        if v != v or v in (float("inf"), float("-inf")):
            return None
        return Fraction(str(v)) if isinstance(v, float) else Fraction(v)
    return None


def poly(t, strip=()):
    """{monomial (sorted tuple of atoms) : coefficient}; `strip`: pure wrappers ignored."""
    n = _num(t)
    if n is not None:
        return {(): n} if n else {}
    if t.op == "bin":
        op, a, b = t.args
        if op in "+-":
            return add(poly(a, strip), poly(b, strip), 1 if op == "+" else -1)
        if op == "*":
            return mul(poly(a, strip), poly(b, strip))
        if op == "/":
            d = poly(b, strip)
            if set(d) == {()}:
                return {k: v / d[()] for k, v in poly(a, strip).items()}
    if t.op == "un" and t.args[0] == "USub":
        return {k: -v for k, v in poly(t.args[1], strip).items()}
    if t.op == "un" and t.args[0] == "UAdd":
        return poly(t.args[1], strip)
    if t.op == "pure" and t.args[0] in strip and len(t.args[1]) >= 1:
        return poly(t.args[1][0], strip)
    return {(t,): Fraction(1)}


def add(a, b, sign=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + sign * v
        if not out[k]:
            del out[k]
    return out


def mul(a, b):
    out = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            k = tuple(sorted(k1 + k2, key=lambda t: t.id))
            out[k] = out.get(k, 0) + v1 * v2
            if not out[k]:
                del out[k]
    return out


def same(a, b, strip=()):
    return poly(a, strip) == poly(b, strip)


def diff(a, b, strip=()):
    """a - b as a polynomial."""
    return add(poly(a, strip), poly(b, strip), -1)


def const_diff(a, b, strip=()):
    """a - b if it is a constant, else None."""
    d = diff(a, b, strip)
    if not d:
        return Fraction(0)
    if set(d) == {()}:
        return d[()]
    return None


def lincmp(c):
    """Normal form of an ordering condition.

    returns (poly, strict) meaning  poly < 0 (strict) or poly <= 0; None otherwise."""
    if c.op == "cmp" and c.args[0] == "<":
        return diff(c.args[1], c.args[2]), True
    if c.op == "not" and c.args[0].op == "cmp" and c.args[0].args[0] == "<":
        x = c.args[0]
        return diff(x.args[2], x.args[1]), False
    return None


def ratio(t):
    """(numerator, denominator) polynomials of a rational expression."""
    if t.op == "bin":
        op, a, b = t.args
        if op in ("+", "-"):
            (n1, d1), (n2, d2) = ratio(a), ratio(b)
            return add(mul(n1, d2), mul(n2, d1), 1 if op == "+" else -1), mul(d1, d2)
        if op == "*":
            (n1, d1), (n2, d2) = ratio(a), ratio(b)
            return mul(n1, n2), mul(d1, d2)
        if op == "/":
            (n1, d1), (n2, d2) = ratio(a), ratio(b)
            return mul(n1, d2), mul(d1, n2)
    if t.op == "un" and t.args[0] == "USub":
        n, d = ratio(t.args[1])
        return {k: -v for k, v in n.items()}, d
    return poly(t), {(): Fraction(1)}


def same_ratio(a, b):
    (n1, d1), (n2, d2) = ratio(a), ratio(b)
    return mul(n1, d2) == mul(n2, d1)
