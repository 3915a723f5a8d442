"""Training data of any accepted form becomes one table and one target (C35).

Values are abstracted to what kind of table they are (array, series, frame), which of the caller's rows and
which content they hold; pandas and numpy operations are transfer functions on that domain."""
from __future__ import annotations

from dataclasses import dataclass, replace

from vp.check import rule
from vp.rules.util import *  # noqa: F401,F403
from vp.rules.util import P

MOD = "gama.data_formatting"
ARR, SER, FRM = "numpy.ndarray", "pandas.Series", "pandas.DataFrame"


@dataclass(frozen=True)
class V:
    kind: str                 # numpy.ndarray, pandas.Series, pandas.DataFrame, other
    cols: int = 0             # 0: one-dimensional, n: two-dimensional with n columns
    content: str = "?"        # x, y (the caller's), argmax (the class of the highest entry), null (is the target missing?), notnull
    rows: str = "all"         # all, labeled, unlabeled
    nulls: bool = False       # some targets are missing (how many)
    index: str = "own"        # own (any labels, in any order), range (ascending)


class Unknown(Exception):
    pass


class Wrong(Exception):
    """A definite error, e.g. a series of a matrix."""


class Ev:
    def __init__(self, env):
        self.env, self.memo = env, {}

    def __call__(self, t):
        if t in self.env:
            return self.env[t]
        if t not in self.memo:
            try:
                self.memo[t] = ("ok", self.ev(t))
            except (Unknown, Wrong) as e:
                self.memo[t] = ("err", e)
        k, v = self.memo[t]
        if k == "err":
            raise v
        return v

    def ev(self, t):
        op, a = t.op, t.args
        if op == "const":
            return a[0]
        if op == "missing":
            return None
        if op in ("ext", "cls", "glob"):
            return a[0].replace("pandas.core.frame.", "pandas.").replace("pandas.core.series.", "pandas.")
        if op == "not":
            return not self.bool(a[0])
        if op in ("and", "or"):
            stop, unk = op == "or", None
            for x in a[0]:
                try:
                    if self.bool(x) is stop:
                        return stop
                except Unknown as e:
                    unk = e
            if unk:
                raise unk
            return not stop
        if op == "ite":
            return self(a[1] if self.bool(a[0]) else a[2])
        if op == "cmp":
            l, r = self(a[1]), self(a[2])
            if isinstance(l, V) or isinstance(r, V):
                raise Unknown(t)
            try:
                return {"==": lambda: l == r, "!=": lambda: l != r, "<": lambda: l < r, "<=": lambda: l <= r, "is": lambda: l is r or l == r, "in": lambda: l in r}[a[0]]()
            except (KeyError, TypeError):
                raise Unknown(t)
        if op in ("tuple", "list", "set"):
            return tuple(self(x.args[0] if x.op == "seg_item" else x) for x in a[0])
        if op == "isinstance":
            v = self(a[0])
            ks = self(a[1])
            ks = ks if isinstance(ks, tuple) else (ks,)
            if not isinstance(v, V):
                raise Unknown(t)
            return v.kind in ks
        if op == "len":
            v = self(a[0])
            return len(v) if isinstance(v, tuple) else self.unk(t)
        if op == "attr":
            return self.attr(t, self.base(a[0]), a[1])
        if op == "un" and a[0] == "Invert":
            v = self(a[1])
            if isinstance(v, V) and v.content in ("null", "notnull"):
                return replace(v, content="notnull" if v.content == "null" else "null")
            raise Unknown(t)
        if op == "item":
            return self.item(t, a[0], a[1])
        if op == "call":
            return self.call(t, *a[:3])
        raise Unknown(t)

    def unk(self, t):
        raise Unknown(t)

    def base(self, t):
        return self(t)

    def bool(self, t):
        v = self(t)
        if isinstance(v, (bool, int)) or v is None:
            return bool(v)
        if isinstance(v, str):
            return bool(v)
        raise Unknown(t)

    def attr(self, t, b, name):
        if not isinstance(b, V):
            raise Unknown(t)
        if name == "ndim":
            return 2 if b.cols else 1
        if name == "shape":
            return (100, b.cols) if b.cols else (100,)
        if name in ("loc", "iloc"):
            return ("loc", b)
        if name == "values":
            return replace(b, kind=ARR)
        if name == "T":
            return replace(b, content="?transposed")
        return ("method", b, name)

    def select(self, t, b, key):
        """Rows of b for which a mask is true."""
        if isinstance(key, V) and key.content in ("null", "notnull") and key.cols == 0 and key.rows == "all" and b.rows == "all":
            if key.kind == SER and b.content == "x":
                raise Unknown(t)                        # aligned by index
            return replace(b, rows=("unlabeled" if key.content == "null" else "labeled") if key.nulls else ("none" if key.content == "null" else "all"))
        raise Unknown(t)

    def item(self, t, bt, kt):
        b = self(bt)
        if isinstance(b, tuple) and b and b[0] == "loc":
            v = b[1]
            if kt.op == "tuple" and len(kt.args[0]) == 2 and v.cols:
                r, c = kt.args[0]
                if is_const(c) and isinstance(cval(c), int) and is_full(r):
                    k = cval(c)
                    if not -v.cols <= k < v.cols:
                        raise Wrong(f"column {k} of {v.cols}")
                    return replace(v, kind=SER if v.kind == FRM else v.kind, cols=0, content=v.content if k % v.cols == 0 else "?column %d" % k)
                if is_full(c):
                    return self.select(t, v, self(r))
                raise Unknown(t)
            return self.select(t, v, self(kt))
        if isinstance(b, tuple) and is_const(kt) and isinstance(cval(kt), int):
            try:
                return b[cval(kt)]
            except IndexError:
                raise Wrong("index")
        if isinstance(b, V):
            if kt.op == "tuple" and b.kind == ARR and len(kt.args[0]) == 2 and b.cols and is_full(kt.args[0][0]) and is_const(kt.args[0][1]):
                k = cval(kt.args[0][1])
                if not isinstance(k, int):
                    raise Unknown(t)
                if not -b.cols <= k < b.cols:
                    raise Wrong(f"column {k} of {b.cols}")
                return replace(b, cols=0, content=b.content if k % b.cols == 0 else "?column %d" % k)
            return self.select(t, b, self(kt))
        raise Unknown(t)

    def call(self, t, f, args, kw):
        kw = dict(kw)
        if f.op in ("ext", "glob", "cls"):
            n = self(f)
            if not args:
                raise Unknown(t)
            v = self(args[0])
            if not isinstance(v, V):
                raise Unknown(t)
            if n in (SER, FRM) and v.kind == ARR and "index" not in kw:
                v = replace(v, index="range")
            if n == SER:
                if v.cols:
                    raise Wrong("a series of a matrix") if v.kind == ARR else Unknown(t)
                return replace(v, kind=SER)
            if n == FRM:
                return replace(v, kind=FRM, cols=v.cols or 1)
            if n in ("numpy.asarray", "numpy.array"):
                return replace(v, kind=ARR)
            if n == "builtins.type":
                return v.kind
            short = n.split(".")[-1]
            if n.startswith("numpy.") and short in ("argmax", "argmin", "squeeze", "ravel"):
                return self.method(t, v, short, args[1:], kw)
            if n in ("pandas.isnull", "pandas.isna", "pandas.notnull", "pandas.notna"):
                return self.method(t, v, short, (), {})
            if n in ("builtins.any", "builtins.all", "numpy.any", "numpy.all"):
                return self.method(t, v, short, (), {})
            raise Unknown(t)
        if f.op == "attr" or f.op == "ite":
            m = self(f)
            if isinstance(m, tuple) and len(m) == 3 and m[0] == "method":
                return self.method(t, m[1], m[2], args, kw)
        raise Unknown(t)

    def method(self, t, v, name, args, kw):
        vals = [self(x) for x in args]
        kv = {k: self(x) for k, x in kw.items()}
        if name in ("argmax", "argmin", "idxmax") and v.cols:
            ax = kv.get("axis", vals[0] if vals else None)
            if ax in (1, -1, "columns"):
                return replace(v, cols=0, content="argmax" if name == "argmax" and v.content == "y" else "?" + name)
            return V("other", content="?%s over all rows" % name)
        if name == "squeeze":
            ax = kv.get("axis", vals[0] if vals else None)
            if v.cols == 1 and ax in (None, 1, -1, "columns"):
                return replace(v, kind=SER if v.kind == FRM else v.kind, cols=0)
            if ax is None or v.cols > 1 and ax in (1, -1, "columns"):
                return v
            raise Unknown(t)
        if name in ("drop_duplicates", "head", "tail", "sample", "nlargest", "nsmallest") and v.content in ("x", "y", "argmax"):
            if v.kind == ARR:
                raise Unknown(t)
            return replace(v, rows=v.rows + ", some of them " + ("(not repeated)" if name == "drop_duplicates" else f"({name})"))
        if name == "sort_values" or name == "sort_index" and v.kind != ARR and not vals and kv.get("axis") in (None, 0):
            if name == "sort_index" and v.index == "range" and kv.get("ascending", True) is True:
                return v
            if v.content not in ("x", "y", "argmax") or kv.get("inplace"):
                raise Unknown(t)
            return replace(v, rows=v.rows + " in another order")
        if name == "reset_index" and kv == {"drop": True}:
            return replace(v, index="range")
        if name in ("ravel", "flatten") and v.kind == ARR:
            if v.cols > 1:
                return replace(v, cols=0, content="?flattened")
            return replace(v, cols=0)
        if name == "reshape":
            if vals in ([-1], [(-1,)]):
                return replace(v, cols=0, content=v.content if v.cols <= 1 else "?flattened")
            if vals in ([-1, 1], [(-1, 1)]) and v.cols <= 1:
                return replace(v, cols=1)
            raise Unknown(t)
        if name == "to_numpy":
            return replace(v, kind=ARR)
        if name == "to_frame" and v.kind == SER:
            return replace(v, kind=FRM, cols=1)
        if name in ("copy", "infer_objects", "convert_dtypes"):
            return v
        if name in ("isnull", "isna", "notnull", "notna") and v.content in ("y", "argmax"):
            if v.rows != "all":
                raise Unknown(t)
            return replace(v, content="null" if name in ("isnull", "isna") else "notnull")
        if name in ("any", "all", "sum", "item", "bool") and v.content in ("null", "notnull") and not v.cols and name in ("any", "all"):
            if v.content == "null":
                return v.nulls if name == "any" else False
            return True if name == "any" else not v.nulls
        if name == "sum" and v.content in ("null", "notnull") and not v.cols and not vals and not kv:
            return int(v.nulls) if v.content == "null" else 100 - int(v.nulls)
        if name == "mean" and v.content in ("null", "notnull") and not v.cols and not vals and not kv:
            return int(v.nulls) / 100 if v.content == "null" else 1 - int(v.nulls) / 100
        if name == "dropna" and v.content in ("y", "argmax") and v.rows == "all" and not args and not kw:
            return replace(v, rows="labeled" if v.nulls else "all")
        raise Unknown(t)


def is_full(t):
    return t.op in ("sl", "slice") and all(x is NONE or x.op == "missing" for x in t.args[-3:])


YS = [("an array", V(ARR, 0, "y")), ("an array with missing values", V(ARR, 0, "y", nulls=True)), ("an array of one column", V(ARR, 1, "y")), ("an array of one column with missing values", V(ARR, 1, "y", nulls=True)),
      ("an indicator matrix of two classes", V(ARR, 2, "y")), ("an indicator matrix", V(ARR, 3, "y")), ("a series", V(SER, 0, "y")), ("a series with missing values", V(SER, 0, "y", nulls=True)),
      ("a frame", V(FRM, 1, "y")), ("a frame with missing values", V(FRM, 1, "y", nulls=True)), ("a frame of several columns", V(FRM, 3, "y"))]
XS = [("array", V(ARR, 4, "x")), ("frame", V(FRM, 4, "x"))]


def outcome(r, env):
    """('value', v) or ('raise', event) or ('unknown', why): what the function does."""
    ev = Ev(env)

    def live(e):
        unk = False
        for g in e.guards:
            try:
                if not ev.bool(g):
                    return False
            except Wrong:
                return None
            except Unknown:
                unk = True
        return None if unk else True
    for e in r.events:
        if e.kind == "raise":
            v = live(e)
            if v:
                return "raise", e
            if v is None:
                return "unknown", e
    for e in r.returns():
        v = live(e)
        if v is None:
            return "unknown", e
        if v:
            try:
                return "value", ev(r.ex(e.value, e))
            except Wrong as w:
                return "wrong", (e, str(w))
            except Unknown as u:
                return "unknown", e
    return "unknown", None


def judge(ctx, r, where, name, got, want, key):
    k, v = got
    if k == "unknown":
        ctx.unk(v.where() if v is not None else where, f"{name}: not decided")
    elif k == "raise":
        ctx.bad(v.where(), f"{name}: refused", key + ":refused")
    elif k == "wrong":
        ctx.bad(v[0].where(), f"{name}: {v[1]}", key + ":error")
    else:
        want(v)


@rule("C35", "target", "format_y: a vector, a column, an indicator matrix, a series or a frame becomes a series (or a frame of one column) with the caller's values, indicators as the class of the highest entry, frames by their first column; other kinds are refused")
def target(ctx):
    r = ctx.run(MOD + ".format_y")
    y, yt = P(r, "y", 0), P(r, "y_type", 1)
    where = fwhere(r)
    for name, v in YS:
        for want in (SER, FRM):
            nm = f"{name} as {want.split('.')[1]}"
            if v.cols > 1 and v.kind == FRM and want == FRM:
                continue                                # left as it is: no caller asks for it

            def check(g, nm=nm, v=v, want=want):
                if not isinstance(g, V):
                    return ctx.unk(where, f"{nm}: not decided")
                content = "argmax" if v.kind == ARR and v.cols > 1 else "y"
                ctx.decide(g.kind == want and g.cols == (0 if want == SER else 1), where, f"{nm}: the result has that form", f"form:{v.kind.split('.')[1]}{min(v.cols, 2)}:{want.split('.')[1]}", f"{g.kind} of {g.cols} columns")
                ctx.decide(True if g.content == content else None if g.content == "?" else False, where, f"{nm}: it holds the caller's values" if content == "y" else f"{nm}: it holds the class of the highest entry of each row", f"content:{v.kind.split('.')[1]}{min(v.cols, 2)}:{want.split('.')[1]}", g.content)
                ctx.decide(g.rows == "all", where, f"{nm}: all rows are there", "rows")
            judge(ctx, r, where, nm, outcome(r, {y: v, yt: want}), check, f"accepted:{v.kind.split('.')[1]}")
    k, e = outcome(r, {y: V("other"), yt: SER})
    ctx.decide(True if k == "raise" else None if k == "unknown" else False, where, "something that is not an array, series or frame is refused", "refuse-y")


@rule("C35", "table", "format_x_y: for every form of features and target, with and without missing targets, the features become a frame and the target a series of the same rows: those with a target")
def table(ctx):
    r = ctx.run(MOD + ".format_x_y")
    x, y, yt, rm = P(r, "x", 0), P(r, "y", 1), P(r, "y_type", 2), P(r, "remove_unlabeled", 3)
    where = fwhere(r)
    for xn, xv in XS:
        for yn, yv in YS:
            for want, remove in ((SER, True), (SER, False), (FRM, True)):
                if yv.kind == FRM and yv.cols > 1 and want == FRM:
                    continue
                nm = f"features as {xn}, target as {yn}, wanted as {want.split('.')[1]}" + ("" if remove else ", missing targets kept")

                def check(g, nm=nm, yv=yv, want=want, remove=remove):
                    if not (isinstance(g, tuple) and len(g) == 2 and all(isinstance(q, V) for q in g)):
                        return ctx.unk(where, f"{nm}: not decided")
                    gx, gy = g
                    content = "argmax" if yv.kind == ARR and yv.cols > 1 else "y"
                    rows = "labeled" if yv.nulls and remove else "all"
                    ctx.decide(gx.kind == FRM and gx.content == "x" if gx.content[0] != "?" else None, where, f"{nm}: the features are a frame of the caller's values", "x-form", f"{gx.kind} {gx.content}")
                    ctx.decide(gy.kind == want and gy.content == content if gy.content != "?" else None, where, f"{nm}: the target has the wanted form and the caller's values", "y-form", f"{gy.kind} {gy.content}")
                    ctx.decide(gx.rows == rows, where, f"{nm}: the features have " + ("all rows" if rows == "all" else "the rows with a target"), f"x-rows:{rows}", gx.rows)
                    ctx.decide(gy.rows == rows, where, f"{nm}: the target has " + ("all rows" if rows == "all" else "the rows with a target"), f"y-rows:{rows}", gy.rows)
                judge(ctx, r, where, nm, outcome(r, {x: xv, y: yv, yt: want, rm: remove}), check, "accepted")
    for nm, xv, yv in (("features that are neither array nor frame", V("other"), V(SER, 0, "y")), ("a target that is neither array, series nor frame", V(FRM, 4, "x"), V("other"))):
        k, e = outcome(r, {x: xv, y: yv, yt: SER, rm: True})
        ctx.decide(True if k == "raise" else None if k == "unknown" else False, where, f"{nm}: refused", "refuse")


# --- which columns become categorical -------------------------------------------------------------------------

class Col:
    """A kind of column: type, values, number of different values."""
    def __init__(self, name, dtype, kind, values, categorical):
        self.name, self.dtype, self.kind, self.values, self.categorical = name, dtype, kind, values, categorical
        self.present = [v for v in values if v is not None]
        self.nunique = len(set(self.present))
        self.nulls = len(self.present) < len(values)
        self.numeric = kind in "iufb"


WHOLE = lambda n: [float(i) for i in range(n)]
COLS = [Col("text", "object", "O", ["a", "b", "a", "c"], True), Col("text with missing values", "object", "O", ["a", None, "b", "c"], True),
        Col("text with many values", "object", "O", ["t%d" % i for i in range(30)], True), Col("one text", "object", "O", ["a"] * 4, True),
        Col("2 whole numbers", "int64", "i", [0, 1, 1, 0], True), Col("10 whole numbers", "int64", "i", list(range(10)) * 2, True), Col("11 whole numbers", "int64", "i", list(range(11)) * 2, False),
        Col("30 whole numbers", "int64", "i", list(range(30)), False),
        Col("10 whole numbers stored as float", "float64", "f", WHOLE(10) * 2, True), Col("10 whole numbers and missing values", "float64", "f", WHOLE(10) + [None], True),
        Col("11 whole numbers stored as float", "float64", "f", WHOLE(11), False), Col("3 whole numbers and missing values", "float64", "f", WHOLE(3) + [None, None], True),
        Col("3 fractions", "float64", "f", [0.5, 1.5, 2.25, 0.5], False), Col("whole numbers and one fraction", "float64", "f", [1.0, 2.0, 0.5], False),
        Col("whole numbers and one fraction at the end", "float64", "f", [1.0, 2.0] * 60000 + [0.5], False), Col("30 fractions", "float64", "f", [i + 0.5 for i in range(30)], False), Col("dates", "datetime64[ns]", "M", ["d1", "d2"], False)]


class ColEv(Ev):
    """Terms about one column of which the kind is known."""
    def __init__(self, S, col):
        super().__init__({})
        self.S, self.col = S, col

    def ev(self, t):
        c, op, a = self.col, t.op, t.args
        if t is self.S:
            return c
        if t.op in ("any", "all"):
            vs = self.each(a[0])
            return any(vs) if op == "any" else all(vs)
        if op == "len":
            v = self(a[0])
            if isinstance(v, (list, tuple, set)):
                return len(v)
            raise Unknown(t)
        if op == "bin" and a[0] == "%":
            l, r = self(a[1]), self(a[2])
            if isinstance(l, Col) and isinstance(r, (int, float)):
                return [float("nan") if v is None else v % r for v in l.values]
            if isinstance(l, list) and isinstance(r, (int, float)):
                return [v % r for v in l]
        if op == "cmp" and a[0] in ("==", "!="):
            l, r = self(a[1]), self(a[2])
            if isinstance(l, (list, Col)) or isinstance(r, (list, Col)):
                lv, rv = (list(z.values) if isinstance(z, Col) else z for z in (l, r))
                n = len(lv) if isinstance(lv, list) else len(rv)
                lv, rv = (z if isinstance(z, list) else [z] * n for z in (lv, rv))
                return [(p == q) is (a[0] == "==") for p, q in zip(lv, rv)]
            if isinstance(l, str) and isinstance(r, str):
                norm = {"builtins.object": "object", "O": "object", "builtins.str": "object", "builtins.float": "float64", "builtins.int": "int64", "numpy.int64": "int64", "numpy.float64": "float64"}
                return (norm.get(l, l) == norm.get(r, r)) is (a[0] == "==") if len(l) > 1 and len(r) > 1 else (l == r or norm.get(l) == norm.get(r, r)) is (a[0] == "==") if (l, r) != ("O", "O") else a[0] == "=="
        if op == "isinstance":
            raise Unknown(t)
        if op == "slice" and all(x is NONE or x.op in ("missing", "const") for x in a[1:]):
            v = self(a[0])
            v = [float("nan") if q is None else q for q in v.values] if isinstance(v, Col) else v
            if isinstance(v, list):
                return v[slice(*[None if x is NONE or x.op == "missing" else x.args[0] for x in a[1:]])]
        if op == "call":
            return self.ccall(t, *a[:3])
        if op == "pure" and a[0] in ("set", "list", "len", "sum"):
            v = self(a[1][0])
            v = list(v.values) if isinstance(v, Col) else v
            return set(v) if a[0] == "set" else v if a[0] == "list" else len(v) if a[0] == "len" else sum(v)
        return super().ev(t)

    def attr(self, t, b, name):
        if isinstance(b, Col):
            if name == "dtype":
                return b.dtype
            if name == "values":
                return list(b.values)
            return ("method", b, name)
        if isinstance(b, str) and b == self.col.dtype:
            if name == "kind":
                return self.col.kind
            if name == "name":
                return b
        if isinstance(b, (list, dict)):
            return ("method", b, name)
        raise Unknown(t)

    def each(self, t):
        if t.op in ("list", "set", "tuple") and len(t.args[0]) == 1 and t.args[0][0].op == "seg_each":
            lid, base, guards, el = t.args[0][0].args[:4]
            vs = self(base)
            vs = vs.values if isinstance(vs, Col) else vs
            if not isinstance(vs, (list, tuple)):
                raise Unknown(t)
            out = []
            for v in vs:
                sub = ColEv(self.S, self.col)
                sub.env = dict(self.env)
                E = mk("elem", base, lid)
                sub.env[E] = float("nan") if v is None else v
                sub.E = E
                ok = True
                for g in guards or ():
                    ok = ok and sub.bool(g)
                if ok:
                    out.append(sub.bool(el))
            return out
        v = self(t)
        if isinstance(v, list) and all(isinstance(x, bool) for x in v):
            return v
        raise Unknown(t)

    def ccall(self, t, f, args, kw):
        c = self.col
        kw = {k: self(v) for k, v in dict(kw).items()}
        if f.op in ("ext", "glob"):
            n = f.args[0].split(".")[-1]
            v = self(args[0]) if args else None
            if isinstance(v, Col) or v == c.dtype:
                ans = {"is_numeric_dtype": c.numeric, "is_object_dtype": c.kind == "O", "is_string_dtype": c.kind == "O", "is_integer_dtype": c.kind in "iu", "is_float_dtype": c.kind == "f",
                       "is_bool_dtype": c.kind == "b", "is_categorical_dtype": False, "is_datetime64_any_dtype": c.kind == "M"}
                if n in ans:
                    return ans[n]
            if n in ("float", "int", "bool", "round", "floor") and isinstance(v, (int, float)) and v == v:
                import math
                return {"float": float, "int": int, "bool": bool, "round": round, "floor": math.floor}[n](v)
            if n in ("all", "any") and len(args) == 1:
                vs = self.each(args[0])
                return all(vs) if n == "all" else any(vs)
            if n in ("isnan", "isnull", "isna") and isinstance(v, float):
                return v != v
            if n in ("unique",) and isinstance(v, (Col, list)):
                v = v.values if isinstance(v, Col) else v
                return sorted(set(map(str, v)))
            raise Unknown(t)
        if f.op == "attr":
            b = self(f.args[0])
            name = f.args[1]
            pos = [self(x) for x in args]
            if name == "is_integer" and isinstance(b, (int, float)):
                return float(b).is_integer()
            if isinstance(b, Col):
                if name == "dropna":
                    return list(b.present)
                if name in ("value_counts", "nunique", "unique"):
                    drop = kw.get("dropna", True if name != "unique" else False)
                    n = b.nunique + (1 if b.nulls and not drop else 0)
                    return n if name == "nunique" else ["v"] * n
                if name in ("isnull", "isna"):
                    return [v is None for v in b.values]
                if name in ("notnull", "notna"):
                    return [v is not None for v in b.values]
                if name in ("tolist", "to_numpy", "to_list"):
                    return [float("nan") if v is None else v for v in b.values]
                raise Unknown(t)
            if isinstance(b, list):
                if name in ("all", "any") and all(isinstance(x, bool) for x in b):
                    return all(b) if name == "all" else any(b)
                if name in ("unique", "drop_duplicates", "value_counts"):
                    return sorted(set(map(str, b)))
                if name == "nunique":
                    return len(set(b))
                if name in ("head", "tail", "sample") and not kw:
                    k = pos[0] if pos else 5 if name != "sample" else 1
                    if isinstance(k, int):
                        return b[:k] if name == "head" else b[-k:] if name == "tail" else b[:k]
                if name == "mod" and pos:
                    return [v % pos[0] for v in b]
                if name == "eq" and pos:
                    return [v == pos[0] for v in b]
                if name == "apply" and args and is_call(args[0], "is_integer"):
                    return [float(v).is_integer() for v in b]
        raise Unknown(t)


@rule("C35", "categories", "infer_categoricals_inplace: for every kind of column, exactly text and at most ten different whole numbers become categories, of the same column")
def categories(ctx):
    q = MOD + ".infer_categoricals_inplace"
    r = ctx.run(q)
    df = P(r, "df", 0)
    where = fwhere(r)
    ups = [e for e in r.events if e.kind == "setitem" and e.base is df]
    ups = [e for e in ups if is_elem(e.seq_key if hasattr(e, "seq_key") else key_of(e))]
    if not ups:
        if not [e for e in r.events if e.kind in ("setitem", "setattr", "mutate", "call") and (e.base is df or any(a is df for a in e.args or ()))]:
            ctx.bad(where, "no column becomes categorical", "never")
            return
        ctx.abort("the conversion of columns was not recognised")
    for e in ups:
        K = key_of(e)
        S = mk("item", df, K)
        v = r.ex(e.value, e)
        ok = is_call(v, ".astype") and v.args[0].op == "attr" and v.args[0].args[0] is S and (v.args[1] + tuple(x for _, x in v.args[2]))[:1] in ((const("category"),),) or is_call(v, "pandas.Categorical") and v.args[1] == (S,)
        own = contains(v, lambda t: t is S)
        ctx.decide(True if ok else None if vague(v) or own and not is_call(v, ".astype") else False, e.where(), "the column itself becomes a category", "itself", show_(v)[:80])
        lp = [c for c in e.ctx if c[0] == "loop"]
        base = r.it.loops[K.args[1]].get("base") if K.op == "elem" else None
        ctx.decide(True if K.op == "elem" and (K.args[0] is df or is_attr(K.args[0], df, "columns")) else False if K.op == "elem" and (
            is_call(K.args[0], ".select_dtypes") and all(is_const(a) for a in K.args[0].args[1]) or K.args[0].op == "slice" and is_attr(K.args[0].args[0], df, "columns")) else None, e.where(), "all columns are considered", "all-columns", show_(K))
        for col in COLS:
            ev = ColEv(S, col)
            res, unk = True, False
            try:
                for g in e.guards:
                    if not ev.bool(g):
                        res = False
                        break
            except (Unknown, Wrong):
                unk = True
            ctx.decide(None if unk else res is col.categorical, e.where(), f"a column of {col.name} " + ("becomes categorical" if col.categorical else "stays numeric" if col.numeric else "keeps its type"), "kind:" + col.name)


def key_of(e):
    k = getattr(e, "key", None)
    return k if k is not None else e.name


@rule("C35", "inferred", "types are inferred for arrays, where they are not known, and a frame the caller gives keeps its types")
def inferred(ctx):
    infer = MOD + ".infer_categoricals_inplace"
    r = ctx.run(MOD + ".format_x_y", opaque=(infer,))
    x = P(r, "x", 0)
    where = fwhere(r)
    calls = [e for e in r.events if e.kind == "call" and e.callee == infer]
    for nm, kind in (("an array", ARR), ("a frame", FRM)):
        ev = Ev({x: V(kind, 4, "x"), P(r, "y", 1): V(SER, 0, "y"), P(r, "y_type", 2): SER, P(r, "remove_unlabeled", 3): True})
        live, unk = [], False
        for e in calls:
            try:
                if all(ev.bool(g) for g in e.guards):
                    live.append(e)
            except (Unknown, Wrong):
                unk = True
        if unk:
            ctx.unk(where, f"{nm}: not decided")
        elif kind == ARR:
            rt = None
            ctx.decide(len(live) >= 1, where, "the types of the columns of an array are inferred", "array")
            for e in live:
                v = e.args[0] if e.args else None
                same = v is not None and not vague(v) and any(contains(q.value, lambda t: t is v) for q in r.returns())
                ctx.decide(True if same else None, e.where(), "they are inferred for the table that is used", "same-table", show_(v)[:60] if v is not None else "")
        else:
            ctx.decide(not live, live[0].where() if live else where, "a frame of the caller keeps its types", "frame")
