"""Constant propagation: the value of a term when the values of some of its parts are given."""
from __future__ import annotations

import datetime
import os.path
import re

from vp.terms import NONE, mk, walk


class CantFold(Exception):
    """The value is not known."""


class Broken(Exception):
    """The computation raises an error for these values."""


class Sym:
    """An object known by the way it was obtained only."""
    def __init__(self, *path):
        self.path = path

    def __getitem__(self, k):
        return Sym(*self.path, k)

    def __bool__(self):
        raise CantFold(self.path)

    def __eq__(self, o):
        if isinstance(o, Sym) and o.path == self.path:
            return True
        raise CantFold(self.path)

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return "/".join(map(str, self.path))


class Klass:
    """A class, with the names of what it inherits from."""
    def __init__(self, name, bases=(), attrs=()):
        self.name, self.bases, self.attrs = name, tuple(bases), tuple(attrs)

    def __repr__(self):
        return f"<class '{self.name}'>"

    def __eq__(self, o):
        return isinstance(o, Klass) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Record(dict):
    """An object with exactly these attributes."""


STR = {"split", "rsplit", "join", "startswith", "endswith", "partition", "rpartition", "rfind", "find", "strip", "lstrip",
       "rstrip", "replace", "removesuffix", "removeprefix", "lower", "upper", "title", "capitalize", "isdigit", "count",
       "index", "splitlines", "zfill", "isidentifier", "casefold"}
EXT = {"re.findall": re.findall, "re.split": re.split, "re.sub": re.sub, "re.match": re.match, "re.search": re.search, "re.fullmatch": re.fullmatch,
       "datetime.datetime.strptime": datetime.datetime.strptime, "datetime.timedelta": datetime.timedelta,
       "os.path.join": os.path.join, "os.path.splitext": os.path.splitext, "os.path.basename": os.path.basename, "pandas.Series": list}
PURE = {"str": str, "int": int, "float": float, "repr": repr, "format": format, "len": len, "bool": bool, "abs": abs, "round": round,
        "sorted": sorted, "tuple": tuple, "list": list, "set": set, "dict": dict, "max": max, "min": min, "sum": sum, "reversed": lambda x: list(reversed(x)),
        "enumerate": lambda x: list(enumerate(x)), "zip": lambda *a: list(zip(*a))}


def conc(t, env, fns=None):
    """fns(f, value): result of applying an in-package function term, or raises CantFold."""
    def go(t, env):
        if t in env:
            return env[t]
        op, a = t.op, t.args
        if op == "const":
            return a[0]
        if op == "ite":
            return go(a[1] if go(a[0], env) else a[2], env)
        if op == "not":
            return not go(a[0], env)
        if op == "and":
            return all(go(x, env) for x in a[0])
        if op == "or":
            return any(go(x, env) for x in a[0])
        if op == "cmp":
            l, r = go(a[1], env), go(a[2], env)
            if a[0] in ("==", "!=", "is"):                 # the engine keeps a list literal it compares with as a tuple
                l = list(l) if isinstance(r, list) and a[1].op == "tuple" else l
                r = list(r) if isinstance(l, list) and a[2].op == "tuple" else r
            return run(lambda: {"==": lambda: l == r, "!=": lambda: l != r, "<": lambda: l < r, "<=": lambda: l <= r, ">": lambda: l > r,
                                ">=": lambda: l >= r, "in": lambda: l in r, "is": lambda: l is r or (l == r and isinstance(l, (bool, str, int))), "notin": lambda: l not in r}[a[0]]())
        if op == "bin":
            l, r = go(a[1], env), go(a[2], env)
            f = {"+": lambda: l + r, "-": lambda: l - r, "*": lambda: l * r, "/": lambda: l / r, "//": lambda: l // r, "%": lambda: l % r}.get(a[0])
            if f is None and isinstance(l, (set, frozenset)) and isinstance(r, (set, frozenset)):
                f = {"&": lambda: l & r, "|": lambda: l | r, "^": lambda: l ^ r}.get(a[0])
            if f is None:
                raise CantFold(t)
            return run(f)
        if op == "un" and a[0] in ("USub", "-"):
            return -go(a[1], env)
        if op == "item":
            b = go(a[0], env)
            k = a[1]
            return run(lambda: b[go(k, env)])
        if op == "slice":
            b = go(a[0], env)
            lo, hi, st = (None if x is NONE or x.op == "missing" else go(x, env) for x in a[1:4])
            return run(lambda: b[lo:hi:st])
        if op == "len":
            return len(go(a[0], env))
        if op == "fstr":
            return "".join(str(go(x, env)) for x in a[0])
        if op in ("list", "tuple", "set"):
            out = [x for s in a[0] for x in seg(s, env)]
            return out if op == "list" else tuple(out) if op == "tuple" else set(out)
        if op == "dict":
            return dict(x for s in a[0] for x in seg(s, env))
        if op == "sorted":
            base = go(a[0], env)
            if a[1] is None or a[1] is NONE:
                key = None
            else:
                el = [x for x in walk(a[1]) if x.op == "elem" and x.args[1] == 0 or x.op == "key" and x.args[1] == 0]
                if a[1].op == "tuple" and len(a[1].args[0]) == 2 and a[1].args[0][0].op == "key" and isinstance(base, list) and all(isinstance(x, tuple) and len(x) == 2 for x in base):
                    k = a[1].args[0][0]          # pairs of a mapping, each key once
                    if tuple(a[1].args[0]) == (k, mk("item", k.args[0], k)):
                        return sorted(base, key=lambda kv: kv[0], reverse=bool(go(a[2], env)))
                if len(set(el)) != 1:
                    raise CantFold(t)
                key = lambda v: go(a[1], {**env, el[0]: v})
            return sorted(base, key=key, reverse=bool(go(a[2], env)))
        if op == "rev":
            return list(reversed(go(a[0], env)))
        if op == "items":
            return list(go(a[0], env).items())
        if op == "keys":
            return list(go(a[0], env))
        if op == "values":
            return list(go(a[0], env).values())
        if op == "zip":
            return list(zip(*[go(x, env) for x in a[0]]))
        if op == "map" and len(a) == 2:
            return [call1(a[0], x) for x in go(a[1], env)]
        if op == "pure":
            n = a[0].rsplit(".", 1)[-1]
            if n == "issubclass" and len(a[1]) == 2:
                c, of = go(a[1][0], env), a[1][1]
                of = [x.args[0] if x.op == "seg_item" else x for x in (of.args[0] if of.op == "tuple" else (of,))]
                if not isinstance(c, Klass) or not all(x.op == "ext" for x in of):
                    raise CantFold(t)
                return any(x.args[0].rsplit(".", 1)[-1] in c.bases for x in of)
            if n == "type" and len(a[1]) == 1:
                v = go(a[1][0], env)
                return Klass("abc.ABCMeta") if isinstance(v, Klass) else Klass(type(v).__name__)
            if n in PURE and not a[2]:
                return run(lambda: PURE[n](*[go(x, env) for x in a[1]]))
        if op in ("min2", "max2"):
            vs = [go(x, env) for x in a[0]]
            return run(lambda: (min if op == "min2" else max)(vs))
        if op == "isinstance":
            v = go(a[0], env)
            ts = [x for x in (a[1].args[0] if a[1].op == "tuple" else (a[1],))]
            ts = [x.args[0] if x.op == "seg_item" else x for x in ts]
            kinds = {"builtins." + k.__name__: k for k in (str, int, float, bool, list, tuple, dict, set)}
            if isinstance(v, Klass) and all(x.op == "ext" for x in ts):
                return any(x.args[0] in ("builtins.type", "abc.ABCMeta") for x in ts)
            ts = [x for x in ts if not (x.op == "ext" and x.args[0] == "builtins.type")]
            if isinstance(v, (Sym, Record)) or not all(x.op == "ext" and x.args[0] in kinds for x in ts):
                raise CantFold(t)
            return isinstance(v, tuple(kinds[x.args[0]] for x in ts))
        if op == "attr":
            b = go(a[0], env)
            if isinstance(b, datetime.timedelta) and a[1] in ("days", "seconds"):
                return getattr(b, a[1])
            if isinstance(b, Sym):
                return Sym(*b.path, a[1])
            if isinstance(b, Klass) and a[1] in ("__name__", "__qualname__"):
                return b.name
            if isinstance(b, Record):
                if a[1] not in b:
                    raise Broken(f"AttributeError: {a[1]}")
                return b[a[1]]
            raise CantFold(t)
        if op == "call":
            f, args, kw = a[0], a[1], a[2]
            if any(x.op.startswith("star") for x in args) or any(k in ("**", None) for k, _ in kw):
                raise CantFold(t)
            if f.op == "ext":
                n = f.args[0]
                g = EXT.get(n) or (PURE.get(n.rsplit(".", 1)[-1]) if n.startswith("builtins.") else None)
                if g is not None:
                    return run(lambda: g(*[go(x, env) for x in args], **{k: go(v, env) for k, v in kw}))
            if f.op == "attr":
                b = go(f.args[0], env)
                m = f.args[1]
                if isinstance(b, str) and m in STR or isinstance(b, dict) and m in ("get", "items", "keys", "values", "copy") or isinstance(b, list) and m in ("copy", "index", "count") \
                        or isinstance(b, datetime.timedelta) and m == "total_seconds" or isinstance(b, re.Match) and m in ("group", "groups", "groupdict"):
                    r = run(lambda: getattr(b, m)(*[go(x, env) for x in args], **{k: go(v, env) for k, v in kw}))
                    return list(r) if isinstance(b, dict) and m in ("items", "keys", "values") else r
        raise CantFold(t)

    def call1(f, x):
        if f.op == "ext" and f.args[0].rsplit(".", 1)[-1] in PURE:
            return run(lambda: PURE[f.args[0].rsplit(".", 1)[-1]](x))
        if fns is not None:
            return fns(f, x)
        raise CantFold(f)

    def seg(s, env):
        if s.op == "seg_item":
            return [go(s.args[0], env)]
        if s.op == "seg_splice":
            v = go(s.args[0], env)
            return list(v.items()) if isinstance(v, dict) else list(v)
        if s.op == "seg_pair":
            return [(go(s.args[0], env), go(s.args[1], env))]
        if s.op == "seg_if":
            return seg(s.args[1], env) if go(s.args[0], env) else []
        if s.op == "seg_each":
            lid, base, guards, el = s.args
            vals = go(base, env)
            out = []
            for i, v in enumerate(vals.items() if isinstance(vals, dict) else vals):
                e2 = {**env, mk("idx", lid, base): i}
                if isinstance(vals, dict):
                    k, val = v
                    e2[mk("key", base, lid)] = k
                    e2[mk("elem", base, lid)] = k
                    e2[mk("item", base, mk("key", base, lid))] = val
                else:
                    e2[mk("elem", base, lid)] = v
                if all(go(g, e2) for g in guards):
                    out += seg(el, e2) if el.op.startswith("seg_") else [go(el, e2)]
            return out
        if s.op.startswith("seg_"):
            raise CantFold(s)
        return [go(s, env)]

    def run(f):
        try:
            return f()
        except (CantFold, Broken):
            raise
        except (ValueError, TypeError, IndexError, KeyError, AttributeError, ZeroDivisionError, re.error) as e:
            raise Broken(f"{type(e).__name__}: {e}")
    return run(lambda: go(t, env))
