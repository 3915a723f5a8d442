"""Hash-consed terms: the abstract values of the value-flow analysis.

A term describes *where a value comes from* (provenance), never a concrete run-time
quantity.  Terms are interned, so equality is identity.
"""
from __future__ import annotations

_TABLE = {}


class Term:
    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (mk, (self.op,) + self.args)


def mk(op, *args):
    key = (op,) + tuple(
        (type(a).__name__, a) if op == "const" else a for a in args
    )
    t = _TABLE.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.id = op, args, len(_TABLE)
        _TABLE[key] = t
    return t


def const(v):
    try:
        hash(v)
    except TypeError:
        return mk("const", repr(v))
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t, *vals):
    if t.op != "const":
        return False
    if not vals:
        return True
    return any(type(t.args[0]) is type(v) and t.args[0] == v for v in vals)


def cval(t):
    return t.args[0] if t.op == "const" else None


# ---------------------------------------------------------------- booleans
def neg(t):
    if t.op == "not":
        return t.args[0]
    if t.op == "const":
        return const(not t.args[0])
    if t.op == "and":
        return bor([neg(a) for a in t.args[0]])
    if t.op == "or":
        return band([neg(a) for a in t.args[0]])
    return mk("not", t)


def _flat(op, ts):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.args[0])
        elif t not in out:
            out.append(t)
    seen, res = set(), []
    for t in out:
        if t not in seen:
            seen.add(t)
            res.append(t)
    return res


def band(ts):
    ts = [t for t in _flat("and", ts) if not is_const(t, True)]
    if any(is_const(t, False) for t in ts):
        return FALSE
    s = set(ts)
    if any(neg1(t) in s for t in ts):
        return FALSE
    if not ts:
        return TRUE
    return ts[0] if len(ts) == 1 else mk("and", tuple(ts))


def bor(ts):
    ts = [t for t in _flat("or", ts) if not is_const(t, False)]
    if any(is_const(t, True) for t in ts):
        return TRUE
    s = set(ts)
    if any(neg1(t) in s for t in ts):
        return TRUE
    # absorption / unit resolution: a or (not a and b) -> a or b
    changed = True
    while changed:
        changed = False
        units = set(ts)
        new = []
        for t in ts:
            if t.op == "and":
                if any(a in units for a in t.args[0]):
                    changed = True
                    continue
                kept = [a for a in t.args[0] if neg1(a) not in units]
                if len(kept) != len(t.args[0]):
                    changed = True
                    t = band(kept)
            if t not in new:
                new.append(t)
        ts = new
        if any(is_const(t, True) for t in ts):
            return TRUE
        s = set(ts)
        if any(neg1(t) in s for t in ts):
            return TRUE
    if not ts:
        return FALSE
    return ts[0] if len(ts) == 1 else mk("or", tuple(ts))


def neg1(t):
    return t.args[0] if t.op == "not" else mk("not", t)


_SWAP = {">": "<", ">=": "<="}


def cmp_(op, a, b):
    """Canonical comparison: only <, ==, is, in (with `not`)."""
    if op == ">":
        return cmp_("<", b, a)
    if op == "<=":
        return neg(cmp_("<", b, a))
    if op == ">=":
        return neg(cmp_("<", a, b))
    if op == "!=":
        return neg(cmp_("==", a, b))
    if op == "is not":
        return neg(cmp_("is", a, b))
    if op == "not in":
        return neg(cmp_("in", a, b))
    if op in ("==", "is"):
        if a.op == "const" and b.op == "const":
            if op == "==" or a.args[0] is None or b.args[0] is None:
                return const(a.args[0] == b.args[0])
        if a is NONE or (a.op == "const" and b.op != "const"):
            a, b = b, a
        elif b.op != "const" and a.id > b.id:
            a, b = b, a
        if op == "==" and b is NONE:
            op = "is"
        if op == "is" and b is NONE and a.op in _NONNULL:
            return FALSE
        if a.op == "ite" and b.op == "const":
            x, y = cmp_(op, a.args[1], b), cmp_(op, a.args[2], b)
            if x.op == "const" and y.op == "const":
                return ite(a.args[0], x, y)
    if op == "<" and a.op == "const" and b.op == "const":
        try:
            return const(a.args[0] < b.args[0])
        except TypeError:
            pass
    if op == "in" and b.op in ("tuple", "list", "set") and b.args and isinstance(b.args[0], tuple):
        elts = b.args[0]
        if elts and all(isinstance(e, Term) and e.op == "const" for e in elts):
            if a.op == "const":
                return const(a.args[0] in [e.args[0] for e in elts])
            return bor([cmp_("==", a, e) for e in elts])
    return mk("cmp", op, a, b)


_NONNULL = {"obj", "listobj", "dictobj", "setobj", "fn", "cls", "partial", "tuple", "fstr", "bound"}


def truth(t):
    """The condition 'bool(t)' in canonical form."""
    if t.op in BOOLISH:
        return t
    if t.op == "const":
        return const(bool(t.args[0]))
    if t.op == "ite":
        c, a, b = t.args
        return ite(c, truth(a), truth(b))
    if t.op in ("obj", "fn", "cls", "partial", "bound"):
        return TRUE
    if t.op == "tuple":
        return const(len(t.args[0]) > 0)
    if t.op == "fstr" and any(p.op == "const" and isinstance(p.args[0], str) and p.args[0] for p in t.args[0]):
        return TRUE
    return t


BOOLISH = ("cmp", "not", "and", "or", "exc", "hasattr", "isinstance", "any", "all")


def ite(c, a, b):
    if a is b:
        return a
    if is_const(c, True):
        return a
    if is_const(c, False):
        return b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return neg(c)
    boolish = BOOLISH
    if c.op in boolish:
        nc = neg(c)
        if a is c or a is nc:
            return ite(c, const(a is c), b)
        if b is c or b is nc:
            return ite(c, a, const(b is nc))
    if b is FALSE and a.op in boolish:
        return band([c, a])
    if a is TRUE and b.op in boolish:
        return bor([c, b])
    if a is FALSE and b.op in boolish:
        return band([neg(c), b])
    if b is TRUE and a.op in boolish:
        return bor([neg(c), a])
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.op == "tuple" and b.op == "tuple" and len(a.args[0]) == len(b.args[0]):
        return mk("tuple", tuple(ite(c, x, y) for x, y in zip(a.args[0], b.args[0])))
    return mk("ite", c, a, b)


def choice(ts):
    out = []
    for t in ts:
        for u in t.args[0] if t.op == "choice" else (t,):
            if u not in out:
                out.append(u)
    if len(out) == 1:
        return out[0]
    return mk("choice", tuple(sorted(out, key=lambda t: t.id)))


def leaves(t, facts=()):
    """Alternatives a term may take (through ite/choice), pruned by known facts."""
    facts = set(facts)
    if t is None:
        return []

    def go(t, facts):
        if t.op == "ite":
            c = t.args[0]
            v = holds(c, facts)
            if v is not False:
                yield from go(t.args[1], facts | set(conj(c)))
            if v is not True:
                yield from go(t.args[2], facts | set(conj(neg(c))))
        elif t.op == "choice":
            for u in t.args[0]:
                yield from go(u, facts)
        else:
            yield t, frozenset(facts)

    return list(go(t, facts))


def conj(c):
    return list(c.args[0]) if c.op == "and" else [c]


def holds(c, facts):
    """True/False if condition c is decided by the facts (syntactically), else None."""
    facts = facts if isinstance(facts, (set, frozenset)) else set(facts)
    if c.op == "const":
        return bool(c.args[0])
    if c in facts:
        return True
    if neg1(c) in facts or neg(c) in facts:
        return False
    if c.op == "and":
        vs = [holds(a, facts) for a in c.args[0]]
        if any(v is False for v in vs):
            return False
        if all(v is True for v in vs):
            return True
        return None
    if c.op == "or":
        vs = [holds(a, facts) for a in c.args[0]]
        if any(v is True for v in vs):
            return True
        if all(v is False for v in vs):
            return False
        return None
    if c.op == "not":
        v = holds(c.args[0], facts)
        return None if v is None else not v
    if c.op == "ite":
        v = holds(c.args[0], facts)
        if v is not None:
            return holds(truth(c.args[1] if v else c.args[2]), facts)
        return None
    # x == k with x == k2 known
    if c.op == "cmp" and c.args[0] == "==" and c.args[2].op == "const":
        for f in facts:
            if f.op == "cmp" and f.args[0] == "==" and f.args[1] is c.args[1] and f.args[2].op == "const":
                return f.args[2] is c.args[2]
    # truthiness implies not None; None implies falsy
    if c.op == "cmp" and c.args[0] == "is" and c.args[2] is NONE:
        if c.args[1] in facts:
            return False
    if mk("cmp", "is", c, NONE) in facts:
        return False
    return None


def simplify(t, facts):
    """Prune ite-branches decided by the facts (recursively)."""
    facts = set(facts)
    memo = {}

    def go(t):
        if not isinstance(t, Term):
            if isinstance(t, tuple):
                return tuple(go(x) for x in t)
            return t
        if t in memo:
            return memo[t]
        if t.op == "ite":
            v = holds(t.args[0], facts)
            if v is True:
                r = go(t.args[1])
            elif v is False:
                r = go(t.args[2])
            else:
                r = ite(go(t.args[0]), go(t.args[1]), go(t.args[2]))
        elif t.op in ("const", "param", "ext", "glob", "obj", "listobj", "fn", "cls", "unknown"):
            r = t
        elif t.op in ("and", "or", "not", "cmp") and holds(t, facts) is not None:
            r = TRUE if holds(t, facts) else FALSE
        else:
            new = tuple(go(a) for a in t.args)
            r = t if new == t.args else rebuild(t.op, new)
        memo[t] = r
        return r

    return go(t)


def rebuild(op, args):
    if op == "ite":
        return ite(*args)
    if op == "not":
        return neg(args[0])
    if op == "and":
        return band(args[0])
    if op == "or":
        return bor(args[0])
    if op == "cmp":
        return cmp_(*args)
    if op == "choice":
        return choice(args[0])
    return mk(op, *args)


def subst(t, mapping):
    memo = {}

    def go(t):
        if not isinstance(t, Term):
            return tuple(go(x) for x in t) if isinstance(t, tuple) else t
        if t in mapping:
            return mapping[t]
        if t in memo:
            return memo[t]
        new = tuple(go(a) for a in t.args)
        r = t if new == t.args else rebuild(t.op, new)
        memo[t] = r
        return r

    return go(t)


def walk(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.args)


def contains(t, pred):
    if isinstance(pred, Term):
        return any(x is pred for x in walk(t))
    return any(pred(x) for x in walk(t))


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, Term):
        return str(t)
    if depth > 7:
        return "…"
    d = depth + 1
    o, a = t.op, t.args
    if o == "const":
        return repr(a[0])
    if o in ("param", "ext", "glob"):
        return str(a[-1])
    if o == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if o == "item":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == "call":
        kw = [f"{k}={show(v, d)}" for k, v in a[2]]
        return f"{show(a[0], d)}({', '.join([show(x, d) for x in a[1]] + kw)})"
    if o == "cmp":
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if o == "not":
        return f"not {show(a[0], d)}"
    if o in ("and", "or"):
        return "(" + f" {o} ".join(show(x, d) for x in a[0]) + ")"
    if o == "bin":
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if o == "ite":
        return f"ite({show(a[0], d)}, {show(a[1], d)}, {show(a[2], d)})"
    if o == "elem":
        return f"elem({show(a[0], d)})"
    if o == "fn":
        return str(a[0])
    if o == "cls":
        return str(a[0])
    if o == "obj":
        return f"{a[0].split('.')[-1]}#{a[1]}"
    if o in ("listobj", "dictobj", "setobj"):
        return f"{o}#{a[0]}"
    return f"{o}<" + ", ".join(show(x, d) for x in a) + ">"
