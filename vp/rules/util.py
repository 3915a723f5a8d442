"""Shared helpers for the rules."""
from __future__ import annotations

from itertools import product

from vp import logic
from vp.terms import (FALSE, NONE, TRUE, Term, band, cmp_, const, contains, cval, holds,
                      is_const, leaves, mk, neg, simplify, truth, walk)

VAGUE = {"unknown", "choice", "cond?", "missing", "havoc"}


def vague(t):
    """True when the term contains something the analysis did not understand."""
    return contains(t, lambda x: x.op in VAGUE)


def excs(t):
    return [x for x in walk(t) if x.op == "exc"]


def excases(value, guards=()):
    """[(facts, value under facts)] over the exception selectors occurring in value."""
    es = []
    for e in excs(value):
        if e not in es:
            es.append(e)
    es.sort(key=lambda t: t.id)
    if len(es) > 6:
        return None
    out = []
    for bits in product((False, True), repeat=len(es)):
        facts = set(guards)
        ids = {}
        ok = True
        for e, b in zip(es, bits):
            if b:
                if e.args[0] in ids:
                    ok = False
                ids[e.args[0]] = e
            f = e if b else neg(e)
            if holds(f, facts) is False:
                ok = False
            facts.add(f)
        if not ok:
            continue
        if any(holds(g, facts) is False for g in guards):
            continue
        if any(logic.ev(g, {e: b for e, b in zip(es, bits)}) is False for g in guards):
            continue
        out.append((facts, [e for e, b in zip(es, bits) if b], simplify(value, facts)))
    return out


def is_call(t, *names):
    """Is the term a call whose callee's dotted name ends with one of names?"""
    if t.op != "call":
        return False
    from vp.absint import callee_name, match_name
    n = callee_name(t.args[0])
    return any(match_name(n, x) for x in names)


def calls_in(t, *names):
    return [x for x in walk(t) if is_call(x, *names)]


def kwarg(t, name, pos=None):
    """Argument of a call term."""
    for k, v in t.args[2]:
        if k == name:
            return v
    if pos is not None and len(t.args[1]) > pos:
        return t.args[1][pos]
    return None


def top(r, kind, name=None):
    return [e for e in r.events if e.kind == kind and (name is None or e.name == name)]


def in_ctx(e, kind, ids=None):
    return [c for c in e.ctx if c[0] == kind and (ids is None or c[1] in ids)]


def catches(types, names):
    return types is None or any(t in names or t.split(".")[-1] in names for t in types)


BROAD = {"Exception", "BaseException", "builtins.Exception", "builtins.BaseException"}


def handler_types(r, tid):
    """List of lists of exception type names, per handler of try tid."""
    out = []
    for ts in r.it.tries[tid]["types"]:
        if ts is None:
            out.append(None)
        else:
            out.append([tname(t) for t in (ts if isinstance(ts, (list, tuple)) else [ts])])
    return out


def tname(t):
    if isinstance(t, str):
        return t
    if t.op in ("ext", "cls", "glob"):
        return t.args[-1] if t.op == "glob" else t.args[0]
    if t.op == "attr":
        return tname(t.args[0]) + "." + t.args[1]
    return "?"


def segs(t):
    """Segments of a frozen list/tuple/dict/set term."""
    if t.op in ("list", "dict", "set"):
        return list(t.args[0])
    if t.op == "tuple":
        return [mk("seg_item", x) for x in t.args[0]]
    return None


def seqnorm(t, guards=(), rev=False):
    """Ordered pieces of a sequence: (kind, guards, base, elem, reversed).

    kind: item (elem), each (elem for every element of base, in order unless reversed),
    splice (all of base)."""
    if t.op == "rev":
        return seqnorm(t.args[0], guards, not rev)
    if t.op in ("pure",) and t.args[0] in ("list", "tuple", "reversed") and len(t.args[1]) == 1:
        return seqnorm(t.args[1][0], guards, rev ^ (t.args[0] == "reversed"))
    if t.op == "ite":
        a = seqnorm(t.args[1], guards + (t.args[0],), rev)
        b = seqnorm(t.args[2], guards + (neg(t.args[0]),), rev)
        return None if a is None or b is None else a + b
    if t.op == "bin" and t.args[0] == "+":
        a, b = seqnorm(t.args[1], guards, rev), seqnorm(t.args[2], guards, rev)
        if a is None or b is None:
            return None
        return b + a if rev else a + b
    ss = segs(t)
    if ss is None:
        return [("splice", guards, t, None, rev)]
    out = []
    for s in ss:
        r = segnorm(s, guards, rev)
        if r is None:
            return None
        out = (r + out) if rev else (out + r)
    return out


def segnorm(s, guards, rev):
    if s.op == "seg_item":
        return [("item", guards, None, s.args[0], False)]
    if s.op == "seg_each":
        lid, base, g, elem = s.args
        b = base
        r = rev
        while b.op == "rev":
            b, r = b.args[0], not r
        return [("each", guards + tuple(g), b, elem, r)]
    if s.op == "seg_if":
        return segnorm(s.args[1], guards + (s.args[0],), rev)
    if s.op == "seg_splice":
        return seqnorm(s.args[0], guards, rev)
    return None


def attr_at(r, e, base, name):
    """Value of base.name just after event e (or at the end of the run when e is None)."""
    heap = e.heap if e is not None else r.state.heap
    return heap.get((base, name))


def P(r, name, pos=None):
    """Term of a parameter, by name or else by position (self not counted)."""
    a = r.fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if name in names or name in [x.arg for x in a.kwonlyargs]:
        return mk("param", name)
    if r.fn.cls is not None and not r.fn.is_static:
        names = names[1:]
    if pos is not None and pos < len(names):
        return mk("param", names[pos])
    return mk("param", name)


def nonnull(t):
    """True / False / None: is the value certainly not None?"""
    if t is NONE:
        return False
    if t.op in ("const", "obj", "listobj", "dictobj", "tuple", "list", "dict", "fstr", "fn", "cls", "excval", "new"):
        return True
    if t.op == "call" and t.args[0].op in ("ext", "cls"):
        n = t.args[0].args[0].split(".")[-1]
        if n[:1].isupper():
            return True
    if t.op == "pure" and t.args[0] in ("str", "repr", "type", "int", "float", "tuple", "list"):
        return True
    return None


def is_elem(t, base=None):
    return t.op == "elem" and (base is None or t.args[0] is base)


def is_item(t, i, base=None):
    return t.op == "item" and t.args[1] is const(i) and (base is None or base(t.args[0]) if callable(base) else
                                                         base is None or t.args[0] is base)


def is_attr(t, name, base=None):
    """base: None, a term, or a predicate on the base term."""
    if t.op != "attr" or t.args[1] != name:
        return False
    if base is None:
        return True
    return base(t.args[0]) if callable(base) else t.args[0] is base


def show_(t):
    from vp.terms import show
    return show(t)[:160] if t is not None else ""


def unphi(r, t, guards=()):
    """Replace loop-carried values that can only be one thing (given guards) by that thing."""
    from vp.terms import subst
    for _ in range(4):
        m = {}
        for x in walk(t):
            if x.op != "loopphi" or x in m:
                continue
            info = r.it.loops.get(x.args[0], {}).get("phis", {}).get(x)
            if info is None:
                continue
            c = []
            for src in info:
                for v, _ in leaves(src):
                    if v is not x and v not in c:
                        c.append(v)
            if NONE in c and any(holds(cmp_("is", x, NONE), {g}) is False for g in guards):
                c.remove(NONE)
            if len(c) == 1 and not contains(c[0], x):
                m[x] = c[0]
        if not m:
            return t
        t = subst(t, m)
    return t


def deep_leaves(t, limit=64):
    """Leaves of the ite/choice structure anywhere inside an arithmetic term."""
    from vp.terms import subst
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        its = [y for y in walk(x) if y.op == "ite"]
        if not its:
            out.append(x)
            continue
        i = its[0]
        if len(out) + len(todo) > limit:
            return None
        todo.append(simplify(subst(x, {i: i.args[1]}), {i.args[0]}))
        todo.append(simplify(subst(x, {i: i.args[2]}), {neg(i.args[0])}))
    return out


class CantFold(Exception):
    pass


def fold(t, env):
    """Python value of a term over strings, numbers and booleans when the terms in env have the given values; CantFold otherwise."""
    import fnmatch
    import posixpath
    if t in env:
        return env[t]
    if t.op == "const":
        return t.args[0]
    if t is NONE:
        return None
    if t.op == "not":
        return not fold(t.args[0], env)
    if t.op in ("and", "or"):
        vs = t.args[0] if len(t.args) == 1 and isinstance(t.args[0], (tuple, list)) else t.args
        stop, cant = t.op == "or", False
        for v in vs:
            try:
                if bool(fold(v, env)) is stop:
                    return stop
            except CantFold:
                cant = True
        if cant:
            raise CantFold
        return not stop
    if t.op == "ite":
        return fold(t.args[1] if fold(t.args[0], env) else t.args[2], env)
    if t.op in ("tuple", "list", "set"):
        out = []
        for x in t.args[0]:
            if x.op == "seg_item":
                x = x.args[0]
            elif x.op.startswith("seg_"):
                raise CantFold
            out.append(fold(x, env))
        return out
    if t.op == "cmp":
        op, a, b = t.args[0], fold(t.args[1], env), fold(t.args[2], env)
        try:
            return {"==": lambda: a == b, "!=": lambda: a != b, "is": lambda: a is b or a == b, "in": lambda: a in b, "<": lambda: a < b, "<=": lambda: a <= b}[op]()
        except (KeyError, TypeError):
            raise CantFold
    if t.op == "len":
        try:
            return len(fold(t.args[0], env))
        except TypeError:
            raise CantFold
    if t.op == "item":
        try:
            return fold(t.args[0], env)[fold(t.args[1], env)]
        except (TypeError, IndexError, KeyError):
            raise CantFold
    if t.op == "slice":
        b = fold(t.args[0], env)
        lo, hi, st = (None if x is NONE or x.op == "missing" else fold(x, env) for x in t.args[1:4])
        return b[lo:hi:st]
    if t.op == "fstr":
        return "".join(str(fold(x, env)) for x in t.args[0])
    if t.op == "bin" and t.args[0] in ("+", "-", "*", "^"):
        a, b = fold(t.args[1], env), fold(t.args[2], env)
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "^": lambda: a ^ b}[t.args[0]]()
        except TypeError:
            raise CantFold
    if t.op == "isinstance":
        v, types = fold(t.args[0], env), t.args[1]
        types = [x.args[0] if x.op == "seg_item" else x for x in types.args[0]] if types.op == "tuple" else [types]
        known = {"builtins.str": str, "builtins.int": int, "builtins.float": float, "builtins.list": list, "builtins.dict": dict, "builtins.bool": bool, "builtins.tuple": tuple}
        if any(x.op != "ext" or x.args[0] not in known for x in types):
            raise CantFold
        return any(isinstance(v, known[x.args[0]]) for x in types)
    if t.op == "pure" and t.args[0] in ("str", "len", "bool") and len(t.args[1]) == 1:
        return {"str": str, "len": len, "bool": bool}[t.args[0]](fold(t.args[1][0], env))
    if t.op == "call":
        f, args = t.args[0], t.args[1]
        n = f.args[0] if f.op in ("ext", "glob") else ""
        if f.op == "attr" and not t.args[2]:
            b = fold(f.args[0], env)
            if isinstance(b, str) and f.args[1] in ("endswith", "startswith", "lower", "upper", "strip", "split", "rsplit", "partition", "rpartition"):
                a = [fold(x, env) for x in args]
                a = [tuple(x) if isinstance(x, list) else x for x in a]
                return getattr(b, f.args[1])(*a)
            raise CantFold
        if isinstance(n, str) and n.startswith("os.path.") and n[8:] in ("splitext", "basename", "dirname"):
            return getattr(posixpath, n[8:])(fold(args[0], env))
        if n in ("fnmatch.fnmatch", "fnmatch.fnmatchcase"):
            return fnmatch.fnmatchcase(fold(args[0], env), fold(args[1], env))
    raise CantFold


def foldb(t, env):
    """True / False / None (not known)."""
    try:
        return bool(fold(t, env))
    except CantFold:
        return None


def on(guards, env):
    """True / False / None: do all the guards hold in the situation env?"""
    vs = [foldb(g, env) for g in guards]
    return False if False in vs else None if None in vs else True


def fwhere(r):
    """Location of the analysed function."""
    m = r.fn.module.name
    q = r.fn.qual
    return f"{m.replace('.', '/')}.py:{q[len(m) + 1:] if q.startswith(m + '.') else q}:{r.fn.node.lineno}"


VECS = ((False,), (True,), (False, False), (True, False), (False, True), (True, True))


def about_probabilities(x):
    return contains(x, lambda y: is_attr(y, "requires_probabilities"))


def needs(x, vec):
    """A condition on the metrics, for metrics of which `vec` tells whether they need probabilities."""
    if x.op == "not":
        v = needs(x.args[0], vec)
        return None if v is None else not v
    if x.op in ("and", "or"):
        vs = [needs(y, vec) for y in x.args[0]]
        stop = x.op == "or"
        return stop if stop in vs else None if None in vs else not stop
    if x.op == "cmp" and x.args[1].op == "len" and is_const(x.args[2]) and x.args[0] in ("==", "<", "<=", "is"):
        n, k = len(vec), cval(x.args[2])
        return n < k if x.args[0] == "<" else n <= k if x.args[0] == "<=" else n == k
    if x.op == "cmp" and x.args[2].op == "len" and is_const(x.args[1]) and x.args[0] in ("==", "<", "<=", "is"):
        n, k = len(vec), cval(x.args[1])
        return k < n if x.args[0] == "<" else k <= n if x.args[0] == "<=" else n == k
    if is_attr(x, "requires_probabilities"):
        b = x.args[0]
        if b.op == "item" and is_const(b.args[1]) and isinstance(cval(b.args[1]), int) and -len(vec) <= cval(b.args[1]) < len(vec):
            return vec[cval(b.args[1])]
        return None
    if x.op in ("any", "all", "list", "truth"):
        c = x.args[0] if x.op != "list" else x
        if c.op in ("list", "tuple", "gen", "set") and len(c.args[0]) == 1 and c.args[0][0].op == "seg_each":
            lid, base, guards, el = c.args[0][0].args
            out = []
            for b in vec:
                cond = [one(g, b) for g in guards]
                if None in cond:
                    return None
                if all(cond):
                    out.append(True if x.op in ("list", "truth") else one(el, b))
            if None in out:
                return None
            return (all if x.op == "all" else any)(out)
    return None


def one(t, b):
    if is_attr(t, "requires_probabilities") and t.args[0].op == "elem":
        return b
    if t.op == "not":
        v = one(t.args[0], b)
        return None if v is None else not v
    if is_const(t):
        return bool(cval(t))
    return None


ALTERS = {"dropna", "drop_duplicates", "head", "tail", "sample", "query", "nlargest", "nsmallest", "clip", "round", "abs", "fillna", "ffill", "bfill", "sort_values", "sort_index", "unique", "shift", "diff", "cumsum", "rank", "replace", "mask", "where", "filter", "truncate", "sort", "argsort", "interpolate"}
ALTERFNS = {"numpy.round", "numpy.clip", "numpy.abs", "numpy.sort", "numpy.unique", "numpy.floor", "numpy.ceil", "numpy.around", "numpy.flip", "numpy.maximum", "numpy.minimum", "numpy.nan_to_num", "numpy.sqrt", "numpy.exp", "numpy.log"}


def altered(t, bases):
    """How t differs from one of the bases it is made of by a chain of calls and slices; [] if it is one, None if not known."""
    out = []
    bases = bases if isinstance(bases, (list, tuple, set)) else (bases,)
    while not any(t is b for b in bases):
        if t.op == "call" and t.args[0].op == "attr" and (t.args[0].args[1] in ALTERS or t.args[0].args[1] in ("copy", "infer_objects", "convert_dtypes")):
            if t.args[0].args[1] in ALTERS:
                out.append("." + t.args[0].args[1] + "()")
            t = t.args[0].args[0]
        elif t.op == "call" and t.args[0].op in ("ext", "fn", "glob") and t.args[1] and t.args[0].args[0] in ALTERFNS:
            out.append(t.args[0].args[0])
            t = t.args[1][0]
        elif t.op == "slice" and (t.args[1] is not NONE or t.args[2] is not NONE):
            out.append("a slice")
            t = t.args[0]
        elif t.op in ("rev", "sorted"):
            out.append(t.op)
            t = t.args[0]
        else:
            return None
    return out
