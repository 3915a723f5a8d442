"""Decide propositional questions about path conditions (guards).

Conditions are terms; everything that is not and/or/not/const/ite is an atom.  Answers
are exact over the atoms with a small theory (None-ness, equality with constants,
ordering); `None` is returned when there are too many atoms to enumerate.
"""
from __future__ import annotations

from .terms import FALSE, NONE, TRUE, Term, band, is_const, mk, neg, truth

MAXATOMS = 16


def atoms(c, out=None):
    out = [] if out is None else out
    c = truth(c)
    if c.op in ("and", "or"):
        for x in c.args[0]:
            atoms(x, out)
    elif c.op == "not":
        atoms(c.args[0], out)
    elif c.op == "ite":
        for x in c.args:
            atoms(x, out)
    elif c.op != "const":
        if c not in out:
            out.append(c)
    return out


def ev(c, m):
    """Three-valued evaluation under a partial assignment."""
    c = truth(c)
    if c in m:
        return m[c]
    if c.op == "const":
        return bool(c.args[0])
    if c.op == "not":
        v = ev(c.args[0], m)
        return None if v is None else not v
    if c.op == "and":
        r = True
        for x in c.args[0]:
            v = ev(x, m)
            if v is False:
                return False
            if v is None:
                r = None
        return r
    if c.op == "or":
        r = False
        for x in c.args[0]:
            v = ev(x, m)
            if v is True:
                return True
            if v is None:
                r = None
        return r
    if c.op == "ite":
        v = ev(c.args[0], m)
        if v is None:
            a, b = ev(c.args[1], m), ev(c.args[2], m)
            return a if a == b else None
        return ev(c.args[1] if v else c.args[2], m)
    return None


def _cmp(t, op):
    return t.op == "cmp" and t.args[0] == op


def exclusions(ats):
    """Pairs of literals which can not hold together."""
    out = []
    for i, a in enumerate(ats):
        for b in ats[i + 1:]:
            for x, y in ((a, b), (b, a)):
                # truthy x  and  x is None
                if _cmp(y, "is") and y.args[2] is NONE and y.args[1] is x:
                    out.append(((x, True), (y, True)))
                # x is None and  x < k / k < x / x == const
                if _cmp(y, "is") and y.args[2] is NONE and x.op == "cmp" and x.args[0] in ("<", "==") and \
                        y.args[1] in (x.args[1], x.args[2]):
                    out.append(((x, True), (y, True)))
                # isinstance(x, K) and x is None
                if _cmp(y, "is") and y.args[2] is NONE and x.op == "isinstance" and x.args[0] is y.args[1]:
                    out.append(((x, True), (y, True)))
                # x == falsy const and truthy(x)
                if _cmp(y, "==") and y.args[1] is x and y.args[2].op == "const":
                    out.append(((x, True) if not y.args[2].args[0] else (x, False), (y, True)))
            if _cmp(a, "==") and _cmp(b, "==") and a.args[1] is b.args[1] and \
                    a.args[2].op == "const" and b.args[2].op == "const":
                out.append(((a, True), (b, True)))
            if _cmp(a, "<") and _cmp(b, "<"):
                if a.args[1] is b.args[2] and a.args[2] is b.args[1]:
                    out.append(((a, True), (b, True)))
                # a < k1 , k2 < a etc. with numeric constants
                ka, kb = _bound(a), _bound(b)
                if ka and kb and ka[0] is kb[0]:
                    out.extend(_num(a, ka, b, kb))
            for x, y in ((a, b), (b, a)):
                if _cmp(x, "<") and _cmp(y, "=="):
                    if {x.args[1], x.args[2]} == {y.args[1], y.args[2]}:
                        out.append(((x, True), (y, True)))
                    kx = _bound(x)
                    if kx and y.args[2].op == "const" and y.args[1] is kx[0]:
                        v = y.args[2].args[0]
                        if isinstance(v, (int, float)) and not isinstance(v, bool):
                            holds_ = v < kx[1] if kx[2] == "up" else kx[1] < v
                            out.append(((x, not holds_), (y, True)))
            if a.op == "exc" and b.op == "exc" and a.args[0] == b.args[0]:
                out.append(((a, True), (b, True)))
    return out


def _bound(c):
    """x < k -> (x, k, 'up');  k < x -> (x, k, 'lo')"""
    l, r = c.args[1], c.args[2]
    num = lambda t: t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool)
    if num(r) and not num(l):
        return (l, r.args[0], "up")
    if num(l) and not num(r):
        return (r, l.args[0], "lo")
    return None


def _intlike(x):
    return x.op in ("len", "range") or (x.op == "pure" and x.args[0] == "int")


def _num(a, ka, b, kb):
    out = []
    if ka[2] == "up" and kb[2] == "up":
        lo, hi = (a, b) if ka[1] <= kb[1] else (b, a)
        out.append(((lo, True), (hi, False)))
        if ka[1] == kb[1]:
            out.append(((lo, False), (hi, True)))
    elif ka[2] == "lo" and kb[2] == "lo":
        strong, weak = (a, b) if ka[1] >= kb[1] else (b, a)
        out.append(((strong, True), (weak, False)))
    else:
        (u, ku), (l, kl) = ((a, ka), (b, kb)) if ka[2] == "up" else ((b, kb), (a, ka))
        # x < ku and kl < x
        if kl[1] >= ku[1] or (_intlike(ka[0]) and kl[1] + 1 >= ku[1]):
            out.append(((u, True), (l, True)))
        # not (x<ku) -> x>=ku > kl
        if ku[1] > kl[1] or (_intlike(ka[0]) and ku[1] >= kl[1] + 1):
            out.append(((u, False), (l, False)))
    return out


def models(conds, constraints=(), limit=MAXATOMS):
    """All consistent assignments of the atoms in conds∪constraints satisfying constraints.

    Returns a list of dicts, or None when there are too many atoms."""
    ats = []
    for c in list(constraints) + list(conds):
        atoms(c, ats)
    if len(ats) > limit:
        return None
    exc = exclusions(ats)
    out = []

    def rec(i, m):
        for c in constraints:
            if ev(c, m) is False:
                return
        for (a, va), (b, vb) in exc:
            if m.get(a) is va and m.get(b) is vb:
                return
        if i == len(ats):
            out.append(dict(m))
            return
        for v in (True, False):
            m[ats[i]] = v
            rec(i + 1, m)
            del m[ats[i]]

    rec(0, {})
    return out


def implies(facts, c):
    """facts |= c : True / False (a counter-model exists) / None (undecided)."""
    c = truth(c)
    if c is TRUE:
        return True
    facts = relevant(facts, [c])
    ms = models([c], facts)
    if ms is None:
        return None
    if not ms:
        return True
    vs = [ev(c, m) for m in ms]
    if all(v is True for v in vs):
        return True
    if any(v is False for v in vs):
        return False
    return None


def relevant(facts, cs):
    """Facts connected (through shared sub-terms of atoms) to the conditions."""
    from .terms import walk
    want = set()
    for c in cs:
        for a in atoms(c):
            want |= _keys(a)
    facts = list(facts)
    keep, changed = [], True
    pool = [(f, set().union(*[_keys(a) for a in atoms(f)]) if atoms(f) else set()) for f in facts]
    while changed:
        changed = False
        for f, ks in list(pool):
            if ks & want:
                keep.append(f)
                want |= ks
                pool.remove((f, ks))
                changed = True
    return keep


def _keys(a):
    """Identity of what an atom talks about."""
    if a.op == "cmp":
        return {x for x in a.args[1:] if isinstance(x, Term) and x.op != "const"} | {a}
    if a.op in ("isinstance", "hasattr"):
        return {a.args[0], a}
    if a.op == "exc":
        return {("exc", a.args[0])}
    return {a}


def disjoint(g1, g2):
    ms = models([], list(g1) + list(g2))
    if ms is None:
        return None
    return not ms


def counts(guard_lists, given=()):
    """Set of possible numbers of guard lists that are simultaneously satisfied,
    over all assignments consistent with `given`; None if undecidable here."""
    conds = [band(list(g)) for g in guard_lists]
    given = relevant(given, conds)
    ms = models(conds, given)
    if ms is None:
        return None
    out = set()
    for m in ms:
        n = 0
        for c in conds:
            v = ev(c, m)
            if v is None:
                return None
            n += bool(v)
        out.add(n)
    return out
