"""Constants that modules define, found by constant propagation over their source; for installed libraries, too."""
from __future__ import annotations

import ast
import glob
import math
import os

SITE = sorted(glob.glob("/opt/venv/lib/python3*/site-packages")) or sorted(glob.glob("/usr/lib/python3*/site-packages"))


class Unk(Exception):
    """The value is not known."""


class Lib:
    """A class or function of a module, by its full name."""
    def __init__(self, mod, name, node=None, kind="ext"):
        self.mod, self.name, self.node, self.kind = mod, name, node, kind

    @property
    def qual(self):
        return f"{self.mod}.{self.name}"

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, Lib) and o.qual == self.qual

    def __hash__(self):
        return hash(self.qual)


class Made:
    """The result of a call of something in a library."""
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw

    def __repr__(self):
        return f"{self.f!r}(...)"


class Lam:
    def __init__(self, node):
        self.node = node

    def __repr__(self):
        return "<function>"


class Array(list):
    """A numpy array (not a list, for isinstance)."""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


def arange(*a, **k):
    a = list(a)
    start, stop, step = k.get("start"), k.get("stop"), k.get("step", 1)
    if len(a) == 1:
        start, stop = 0, a[0]
    elif len(a) >= 2:
        start, stop = a[:2]
        step = a[2] if len(a) > 2 else step
    n = max(0, math.ceil((stop - start) / step))
    if n > 100000:
        raise Unk("large")
    if all(isinstance(x, int) for x in (start, stop, step)):
        return Array(range(start, stop, step))
    d = (start + step) - start
    return Array(float(start) if i == 0 else float(start + step) if i == 1 else float(start + i * d) for i in range(n))


def linspace(start, stop, num=50, **k):
    if k:
        raise Unk("linspace")
    return Array([float(start)] if num == 1 else [start + (stop - start) * i / (num - 1) for i in range(num)])


FUN = {"numpy.arange": arange, "numpy.linspace": linspace,
       "numpy.logspace": lambda a, b, num=50, **k: Array(10.0 ** x for x in linspace(a, b, num)),
       "numpy.array": lambda x, **k: Array(x), "numpy.round": lambda x, d=0: Array(round(v, d) for v in x)}
BUILTIN = {"range": range, "list": list, "tuple": tuple, "dict": dict, "set": set, "frozenset": frozenset, "sorted": sorted, "len": len, "zip": lambda *a: list(zip(*a)),
           "float": float, "int": int, "str": str, "bool": bool, "min": min, "max": max, "sum": sum, "enumerate": lambda x: list(enumerate(x)), "reversed": lambda x: list(reversed(x)),
           "abs": abs, "round": round, "map": None}
METH = {dict: {"items", "keys", "values", "get", "copy", "update", "pop", "setdefault"}, list: {"append", "extend", "copy", "index", "count", "remove", "insert", "pop", "sort"},
        set: {"union", "difference", "intersection", "copy", "add", "update"}, str: {"split", "join", "lower", "upper", "format", "strip"}, tuple: {"index", "count"}}


class Consts:
    def __init__(self, paths):
        """paths: directories in which top-level packages are found."""
        self.paths = list(paths)
        self.trees, self.envs, self.busy, self.where = {}, {}, set(), {}
        self.dups = []

    # ---------------------------------------------------------------- modules
    def file(self, mod):
        rel = mod.replace(".", "/")
        for p in self.paths:
            for f in (os.path.join(p, rel, "__init__.py"), os.path.join(p, rel + ".py")):
                if os.path.isfile(f):
                    return f
        return None

    def exists(self, mod):
        """Is there such a module (of any kind)?"""
        if self.file(mod):
            return True
        rel = mod.replace(".", "/")
        return any(glob.glob(os.path.join(p, rel + ".*.so")) or os.path.isdir(os.path.join(p, rel)) for p in self.paths)

    def tree(self, mod):
        if mod not in self.trees:
            f = self.file(mod)
            self.trees[mod] = ast.parse(open(f, encoding="utf8").read()) if f else None
            self.where[mod] = f
        return self.trees[mod]

    def relative(self, mod, node):
        if not node.level:
            return node.module
        base = mod.split(".")
        f = self.file(mod) or ""
        drop = node.level - (1 if f.endswith("__init__.py") else 0)
        base = base[:len(base) - drop] if drop else base
        return ".".join(base + ([node.module] if node.module else []))

    def lookup(self, mod, name, depth=0):
        """What a name means in a module: Lib, a constant, or Unk."""
        t = self.tree(mod)
        if t is None or depth > 30:
            return Lib(mod, name, None, "ext")
        hit = None
        for s in self.flat(t.body):
            if isinstance(s, (ast.ClassDef, ast.FunctionDef)) and s.name == name:
                hit = s
            elif isinstance(s, ast.ImportFrom):
                if any((a.asname or a.name) == name for a in s.names):
                    hit = s
            elif isinstance(s, ast.Import):
                if any((a.asname or a.name.split(".")[0]) == name for a in s.names):
                    hit = s
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if any(isinstance(x, ast.Name) and x.id == name for y in ts for x in ast.walk(y)):
                    hit = s
        if isinstance(hit, ast.ClassDef):
            return Lib(mod, name, hit, "class")
        if isinstance(hit, ast.FunctionDef):
            return Lib(mod, name, hit, "func")
        if isinstance(hit, ast.ImportFrom):
            m = self.relative(mod, hit)
            a = next(a for a in hit.names if (a.asname or a.name) == name)
            if self.exists(m + "." + a.name) and (self.tree(m) is None or not self.binds(m, a.name)):
                return Lib(m, a.name, None, "mod")
            return self.lookup(m, a.name, depth + 1)
        if isinstance(hit, ast.Import):
            a = next(a for a in hit.names if (a.asname or a.name.split(".")[0]) == name)
            q = a.name if a.asname else a.name.split(".")[0]
            return Lib(q.rpartition(".")[0], q.rpartition(".")[2], None, "mod")
        if hit is not None:
            if isinstance(hit, ast.AnnAssign) and hit.value is None:
                raise Unk(name)
            if len(getattr(hit, "targets", [0])) == 1 and (isinstance(hit, ast.AnnAssign) or isinstance(hit.targets[0], ast.Name)):
                key = (mod, name)
                if key in self.busy:
                    raise Unk(name)
                self.busy.add(key)
                try:
                    return self.ev(hit.value, {}, mod)
                finally:
                    self.busy.discard(key)
            raise Unk(name)
        if self.exists(mod + "." + name):
            return Lib(mod, name, None, "mod")
        stars = [s for s in t.body if isinstance(s, ast.ImportFrom) and any(a.name == "*" for a in s.names)]
        if stars or any(isinstance(s, ast.FunctionDef) and s.name == "__getattr__" for s in t.body):
            raise Unk(name)
        return Lib(mod, name, None, "missing")

    def binds(self, mod, name):
        t = self.tree(mod)
        return t is not None and any(
            isinstance(s, (ast.ClassDef, ast.FunctionDef)) and s.name == name or
            isinstance(s, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name) == name for a in s.names) for s in self.flat(t.body))

    def flat(self, body):
        for s in body:
            yield s
            for part in ("body", "orelse", "finalbody"):
                if isinstance(s, (ast.If, ast.Try, ast.With)):
                    yield from self.flat(getattr(s, part, []) or [])
            if isinstance(s, ast.Try):
                for h in s.handlers:
                    yield from self.flat(h.body)

    def module(self, mod):
        """All names a module defines, with its statements applied in order."""
        if mod not in self.envs:
            env = {}
            self.envs[mod] = env
            self.block(self.tree(mod).body, env, mod)
        return self.envs[mod]

    # ---------------------------------------------------------------- statements
    def block(self, body, env, mod):
        for s in body:
            self.stmt(s, env, mod)

    def stmt(self, s, env, mod):
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                env.pop((a.asname or a.name).split(".")[0], None)
            return
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            env[s.name] = Lib(mod, s.name, s, "func" if isinstance(s, ast.FunctionDef) else "class")
            return
        if isinstance(s, ast.Assign):
            v = self.tryev(s.value, env, mod)
            for t in s.targets:
                self.assign(t, v, env, mod)
            return
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.tryev(s.value, env, mod), env, mod)
            return
        if isinstance(s, ast.AugAssign):
            cur = self.ev(ast.parse(ast.unparse(s.target), mode="eval").body, env, mod)
            v = self.ev(s.value, env, mod)
            if isinstance(cur, dict) and isinstance(s.op, ast.BitOr):
                cur.update(v)
            elif isinstance(cur, list) and isinstance(s.op, ast.Add):
                cur.extend(v)
            else:
                self.assign(s.target, self.binop(s.op, cur, v), env, mod)
            return
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, env, mod)
            return
        if isinstance(s, ast.If):
            t = self.ev(s.test, env, mod)
            self.block(s.body if t else s.orelse, env, mod)
            return
        if isinstance(s, ast.For):
            for x in list(self.ev(s.iter, env, mod)):
                self.assign(s.target, x, env, mod)
                self.block(s.body, env, mod)
            return
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    del self.ev(t.value, env, mod)[self.ev(t.slice, env, mod)]
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
            return
        if isinstance(s, ast.Return):
            raise Ret(self.ev(s.value, env, mod) if s.value is not None else None)
        if isinstance(s, ast.Try):
            self.block(s.body, env, mod)
            return
        if isinstance(s, (ast.Pass, ast.Assert, ast.Global)):
            return
        raise Unk(type(s).__name__)

    def tryev(self, e, env, mod):
        try:
            return self.ev(e, env, mod)
        except (Unk, KeyError, IndexError, TypeError, ValueError, AttributeError) as x:
            return x if isinstance(x, Unk) else Unk(str(x))

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(v)
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env, mod)
        elif isinstance(t, ast.Subscript):
            self.ev(t.value, env, mod)[self.ev(t.slice, env, mod)] = v

    # ---------------------------------------------------------------- expressions
    def binop(self, op, l, r):
        if isinstance(op, ast.Add):
            return l + r
        if isinstance(op, ast.Sub):
            return l - r
        if isinstance(op, ast.Mult):
            return l * r
        if isinstance(op, ast.Div):
            return l / r
        if isinstance(op, ast.Pow):
            return l ** r
        if isinstance(op, ast.FloorDiv):
            return l // r
        if isinstance(op, ast.BitOr):
            return {**l, **r} if isinstance(l, dict) else l | r
        if isinstance(op, ast.BitAnd):
            return l & r
        raise Unk("operator")

    def ev(self, e, env, mod):
        def go(x):
            v = self.ev(x, env, mod)
            if isinstance(v, Unk):
                raise v
            return v
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                v = env[e.id]
            elif e.id in BUILTIN or e.id in ("True", "False", "None", "callable", "object", "complex") and self.tree(mod) is not None and not self.binds(mod, e.id):
                v = Lib("builtins", e.id, None, "ext")
                if self.binds(mod, e.id):
                    v = self.lookup(mod, e.id)
            else:
                v = self.lookup(mod, e.id)
                if isinstance(v, Lib) and v.kind == "missing":
                    raise Unk(e.id)
            if isinstance(v, Unk):
                raise v
            return v
        if isinstance(e, ast.Attribute):
            b = go(e.value)
            if isinstance(b, Lib):
                if b.kind == "mod":
                    return self.lookup(b.qual.lstrip("."), e.attr)
                if b.kind == "class":
                    return self.class_attr(b, e.attr)
                return Lib(b.qual, e.attr, None, "ext")
            raise Unk(e.attr)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for x in e.elts:
                out += list(go(x.value)) if isinstance(x, ast.Starred) else [go(x)]
            return out if isinstance(e, ast.List) else tuple(out) if isinstance(e, ast.Tuple) else set(out)
        if isinstance(e, ast.Dict):
            d, own = {}, set()
            for k, v in zip(e.keys, e.values):
                if k is None:
                    d.update(go(v))
                else:
                    kk = go(k)
                    if kk in own:
                        self.dups.append((mod, k.lineno, kk))
                    own.add(kk)
                    d[kk] = self.tryev(v, env, mod)
            return d
        if isinstance(e, ast.Lambda):
            return Lam(e)
        if isinstance(e, ast.UnaryOp):
            v = go(e.operand)
            return -v if isinstance(e.op, ast.USub) else (not v) if isinstance(e.op, ast.Not) else +v
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, go(e.left), go(e.right))
        if isinstance(e, ast.IfExp):
            return go(e.body) if go(e.test) else go(e.orelse)
        if isinstance(e, ast.BoolOp):
            v = None
            for x in e.values:
                v = go(x)
                if bool(v) != isinstance(e.op, ast.And):
                    return v
            return v
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r = go(e.left), go(e.comparators[0])
            f = {ast.Eq: lambda: l == r, ast.NotEq: lambda: l != r, ast.In: lambda: l in r, ast.NotIn: lambda: l not in r, ast.Lt: lambda: l < r, ast.Gt: lambda: l > r,
                 ast.LtE: lambda: l <= r, ast.GtE: lambda: l >= r, ast.Is: lambda: l is r, ast.IsNot: lambda: l is not r}.get(type(e.ops[0]))
            if f is None:
                raise Unk("comparison")
            return f()
        if isinstance(e, ast.Subscript):
            b = go(e.value)
            if isinstance(b, (Lib, Made, Lam)):
                raise Unk("subscript")
            if isinstance(e.slice, ast.Slice):
                lo, hi, st = (go(x) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step))
                return b[lo:hi:st]
            return b[go(e.slice)]
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            out = []

            def rec(i, en):
                if i == len(e.generators):
                    out.append((self.ev(e.key, en, mod), self.ev(e.value, en, mod)) if isinstance(e, ast.DictComp) else self.ev(e.elt, en, mod))
                    return
                g = e.generators[i]
                for x in list(self.ev(g.iter, en, mod)):
                    e2 = dict(en)
                    self.assign(g.target, x, e2, mod)
                    if all(self.ev(c, e2, mod) for c in g.ifs):
                        rec(i + 1, e2)
            rec(0, env)
            return dict(out) if isinstance(e, ast.DictComp) else set(out) if isinstance(e, ast.SetComp) else out
        if isinstance(e, ast.JoinedStr):
            return "".join(x.value if isinstance(x, ast.Constant) else str(go(x.value)) for x in e.values)
        if isinstance(e, ast.Call):
            args = []
            for a in e.args:
                args += list(go(a.value)) if isinstance(a, ast.Starred) else [go(a)]
            kw = {}
            for k in e.keywords:
                if k.arg is None:
                    kw.update(go(k.value))
                else:
                    kw[k.arg] = go(k.value)
            if isinstance(e.func, ast.Attribute):
                try:
                    b = go(e.func.value)
                except Unk:
                    b = None
                if isinstance(b, Array) and e.func.attr in ("tolist", "round"):
                    return list(b) if e.func.attr == "tolist" else Array(round(x, *args) for x in b)
                for T, ms in METH.items():
                    if isinstance(b, T) and e.func.attr in ms:
                        r = getattr(b, e.func.attr)(*args, **kw)
                        return list(r) if T is dict and e.func.attr in ("items", "keys", "values") else r
            f = go(e.func)
            if isinstance(f, Lib):
                if f.mod == "builtins" and BUILTIN.get(f.name):
                    return BUILTIN[f.name](*args, **kw)
                q = f.qual
                if q in FUN or q.replace("numpy.core.", "numpy.") in FUN:
                    return FUN[q](*args, **kw)
                if f.mod.split(".")[0] == "numpy" and "numpy." + f.name in FUN:
                    return FUN["numpy." + f.name](*args, **kw)
                if f.kind == "func" and f.mod.split(".")[0] == mod.split(".")[0] and f.node is not None:
                    return self.inline(f, args, kw)
                return Made(f, args, kw)
            raise Unk("call")
        raise Unk(type(e).__name__)

    def inline(self, f, args, kw):
        a = f.node.args
        if a.vararg or len(self.busy) > 40:
            raise Unk(f.name)
        env = {}
        ps = a.posonlyargs + a.args
        for p, d in zip(ps[::-1], a.defaults[::-1]):
            env[p.arg] = self.ev(d, {}, f.mod)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                env[p.arg] = self.ev(d, {}, f.mod)
        for p, v in zip(ps, args):
            env[p.arg] = v
        names = {p.arg for p in ps + a.kwonlyargs}
        extra = {k: v for k, v in kw.items() if k not in names}
        env.update({k: v for k, v in kw.items() if k in names})
        if a.kwarg:
            env[a.kwarg.arg] = extra
        elif extra:
            raise Unk(f.name)
        self.busy.add((f.qual, len(self.busy)))
        try:
            self.block(f.node.body, env, f.mod)
        except Ret as r:
            return r.v
        finally:
            self.busy.discard((f.qual, len(self.busy) - 1))
        return None

    # ---------------------------------------------------------------- classes
    def bases(self, c):
        """Direct bases, None for one that is not known."""
        out = []
        for b in c.node.bases:
            try:
                v = self.ev(b, {}, c.mod)
                out.append(v if isinstance(v, Lib) else None)
            except Unk:
                out.append(None)
        return out

    def mro(self, c, seen=()):
        """(classes in order of lookup, all known?)"""
        def lin(c):
            bs = self.bases(c)
            if any(b is None or b.kind != "class" and b.qual not in ("builtins.object", "abc.ABC") for b in bs):
                known[0] = False
            ls = [lin(b) for b in bs if b is not None and b.kind == "class"]
            ls.append([b for b in bs if b is not None and b.kind == "class"])
            out = [c]
            while any(ls):
                ls = [x for x in ls if x]
                for x in ls:
                    h = x[0]
                    if not any(h in y[1:] for y in ls):
                        break
                else:
                    h = ls[0][0]
                out.append(h)
                ls = [[z for z in y if z != h] for y in ls]
            return out
        known = [True]
        return lin(c), known[0]

    def class_attr(self, c, name):
        m, known = self.mro(c)
        for k in m:
            env = self.class_env(k, name)
            if env is not None and name in env:
                v = env[name]
                if isinstance(v, Unk):
                    raise v
                return v
        raise Unk(name)

    def class_env(self, c, name):
        if not any(isinstance(s, (ast.Assign, ast.AnnAssign)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(s)) for s in c.node.body):
            return None
        key = (c.qual, name)
        if key not in self.envs:
            env = {}
            self.envs[key] = env
            for s in c.node.body:
                if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Expr, ast.For, ast.Delete)):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(s)):
                        try:
                            self.stmt(s, env, c.mod)
                        except (Unk, KeyError, TypeError) as x:
                            env[name] = Unk(str(x))
        return self.envs[key]

    def signature(self, c):
        """(parameters of the constructor, takes any others?)"""
        m, known = self.mro(c)
        for k in m:
            for s in k.node.body:
                if isinstance(s, ast.FunctionDef) and s.name == "__init__":
                    a = s.args
                    return [x.arg for x in (a.posonlyargs + a.args)[1:] + a.kwonlyargs], a.kwarg is not None, s
        if not known:
            raise Unk(c.name)
        return [], False, None
