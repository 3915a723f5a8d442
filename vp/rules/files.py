"""Data files: which loader, which columns, which types (C24)."""
from __future__ import annotations

from vp.check import rule
from vp.rules.util import *  # noqa: F401,F403
from vp.rules.util import P
from vp.terms import ite, subst

D = "gama.data_loading."
LOAD = D + "X_y_from_file"
G = "gama.gama.Gama."
GC = "gama.GamaClassifier.GamaClassifier."
PATHS = {"data.arff": "arff", "data.csv": "csv", "DATA.ARFF": "arff", "Data.Csv": "csv", "a.csv.arff": "arff", "a.arff.csv": "csv",
         "data.txt": None, "data.csv.gz": None, "data.arff.bak": None, "csv": None, "data.xlsx": None, "my.csv_file.json": None}


def outcome(r, env):
    """What a function does in a situation: ("return", value) / ("raise", event) / None."""
    out = []
    for e in r.events:
        if e.kind not in ("return", "raise") or (e.kind == "return" and [c for c in e.ctx if c[0] == "fn"][-1][2] != 0):
            continue
        g = on(e.guards, env)
        if g is None:
            return None
        if g:
            out.append(e)
    out = [e for e in out if e.kind == "raise"] or out
    if len(out) != 1:
        return None
    return out[0].kind, out[0]


def picked(t, env):
    """The alternative of t that holds in the situation."""
    while t.op == "ite":
        c = foldb(t.args[0], env)
        if c is None:
            return None
        t = t.args[1] if c else t.args[2]
    return t


def has_call(t, name):
    return any(is_call(x, name) for x in walk(t))


@rule("C24", "loader", "every file name gets the loader of its extension whatever its case, with the caller's options, and other files are refused")
def loader(ctx):
    for fn, ld in (("file_to_pandas", {"arff": "arff_to_pandas", "csv": "csv_to_pandas"}),
                   ("load_feature_metadata_from_file", {"arff": "load_feature_metadata_from_arff", "csv": "load_csv_header"})):
        if not ctx.has(D + fn):
            continue
        meta = fn.startswith("load")
        r = ctx.run(D + fn, opaque=tuple(D + x for x in ld.values()) + (D + "sniff_csv_meta",))
        p = P(r, "file_path", 0)
        for path, kind in PATHS.items():
            o = outcome(r, {p: path})
            w = fwhere(r)
            if o is None:
                ctx.unk(w, f"{fn}({path!r}): not decided", "dispatch")
                continue
            w = o[1].where()
            if kind is None:
                ctx.decide(o[0] == "raise", w, f"{fn}: {path!r} is refused", "refused")
                continue
            if o[0] == "raise":
                ctx.bad(w, f"NOT: {fn}: {path!r} is read (it is refused)", "read")
                continue
            v = r.ex(o[1].value, o[1])
            if not meta:
                v = picked(v, {p: path})
            if v is None:
                ctx.unk(w, f"{fn}({path!r}): value not decided", "dispatch")
                continue
            mine, other = has_call(v, ld[kind]), has_call(v, ld["csv" if kind == "arff" else "arff"])
            ctx.decide(True if mine and not other else False if other and not mine else None, w, f"{fn}: {path!r} is read as {kind}", "read")
            if mine and not meta:
                c = next(x for x in walk(v) if is_call(x, ld[kind]))
                a = kwarg(c, "file_path", 0)
                ctx.decide(a is p if a is not None else None, w, f"{fn}: the {kind} file at the given path is read", "path")
                kw = r.fn.node.args.kwarg
                st = [x for k, x in c.args[2] if k == "**"]
                if kw is not None:
                    ctx.decide(any(contains(x, mk("param", kw.arg)) or not x.op == "param" for x in st) if st else False, w, f"{fn}: options reach the {kind} loader", "options")
                if kind == "arff":
                    a = kwarg(c, "encoding", 1)
                    enc = P(r, "encoding", 1)
                    if enc is not None:
                        ctx.decide(a is enc if a is not None else False, w, f"{fn}: the encoding is used for arff files", "encoding")
    if ctx.has(D + "load_csv_header"):
        r = ctx.run(D + "load_csv_header", opaque=(D + "sniff_csv_meta",))
        p = P(r, "file_path", 0)
        for path, kind in PATHS.items():
            for e in r.events:
                if e.kind == "raise":
                    g = on(e.guards, {p: path})
                    if kind == "csv":
                        ctx.decide(None if g is None else not g, e.where(), f"load_csv_header: {path!r} is read", "read")
        kwn = r.fn.node.args.kwarg
        sniffed = [x.res for x in r.calls("sniff_csv_meta")]
        if kwn is not None and len(sniffed) == 1:
            KW = mk("param", kwn.arg)
            for given in (True, False):
                env = {mk("cmp", "in", const("sep"), KW): given, mk("item", KW, const("sep")): "given sep", mk("item", sniffed[0], const(0)): "found sep"}
                for e in r.calls(".split"):
                    a = r.ex(e.args[0], e) if e.args else e.kw("sep", 0)
                    if a is None:
                        ctx.bad(e.where(), "NOT: the header is split at the separator", "header-sep")
                        continue
                    try:
                        v = fold(a, env)
                    except (CantFold, TypeError):
                        ctx.unk(e.where(), "separator of the header not decided", "header-sep")
                        continue
                    want = "given sep" if given else "found sep"
                    ctx.decide(v == want, e.where(), f"separator {'given' if given else 'not given'}: the header is split at the {want} (it is {v!r})", "header-sep")


# ---- columns -------------------------------------------------------------------------------

class Rows(Exception):
    """Only some of the rows are kept."""


def part(t):
    return t.args[0] if t.op == "seg_item" else t


def full(t):
    return t.op == "sl" and all(x is NONE or x.op == "missing" for x in t.args)


def cut(lst, t, env):
    lo, hi, st = (None if x is NONE or x.op == "missing" else val(x, env) for x in t.args[-3:])
    return lst[lo:hi:st]


def val(t, env):
    """Value of a column-level expression: ("F", columns), ("S", column), or a Python value."""
    if t in env:
        return env[t]
    if t.op == "attr" and t.args[1] == "columns":
        f = val(t.args[0], env)
        if f[0] == "F":
            return ("C", f[1])
    if t.op == "attr" and t.args[1] in ("values",):
        return val(t.args[0], env)
    if t.op == "slice":
        b = val(t.args[0], env)
        if isinstance(b, tuple) and b[0] == "C":
            return ("C", cut(b[1], t, env))
        if isinstance(b, tuple) and b[0] == "F":
            raise Rows
        return cut(b, t, env)
    if t.op == "item":
        b, k = t.args
        if b.op == "attr" and b.args[1] in ("iloc", "loc"):
            f = val(b.args[0], env)
            if f[0] != "F":
                raise CantFold
            if k.op != "tuple" or len(k.args[0]) != 2:
                raise Rows
            rows, cols = (part(x) for x in k.args[0])
            if not full(rows):
                if rows.op in ("sl", "const"):
                    raise Rows
                raise CantFold
            return select(f[1], cols, env, b.args[1] == "iloc")
        f = val(b, env)
        if isinstance(f, tuple) and f[0] == "F":
            if k.op == "sl":
                raise Rows
            return select(f[1], k, env, False)
        if isinstance(f, tuple) and f[0] == "C":
            i = val(k, env) if k.op != "sl" else None
            if k.op == "sl":
                return ("C", cut(f[1], k, env))
            if isinstance(i, int):
                return f[1][i]
            if isinstance(i, list):
                return ("C", [c for c, y in zip(f[1], i) if y])
        if isinstance(f, (list, tuple)) and k.op != "sl":
            try:
                return f[val(k, env)]
            except (IndexError, TypeError):
                raise CantFold
        raise CantFold
    if t.op == "cmp" and t.args[0] in ("==", "!=", "in"):
        a, b = val(t.args[1], env), val(t.args[2], env)
        if t.args[0] == "in":
            return a in (b[1] if isinstance(b, tuple) else b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == "C":
                return [(c == y) is (t.args[0] == "==") for c in x[1]]
        return (a == b) is (t.args[0] == "==")
    if t.op == "not" or t.op == "un" and t.args[0] == "~":
        v = val(t.args[-1], env)
        return [not x for x in v] if isinstance(v, list) else not v
    if t.op == "ite":
        return val(t.args[1] if val(t.args[0], env) else t.args[2], env)
    if t.op in ("tuple", "list"):
        return [val(part(x), env) for x in t.args[0] if not x.op.startswith("seg_") or x.op == "seg_item"] if all(x.op == "seg_item" or not x.op.startswith("seg_") for x in t.args[0]) else each(t, env)
    if t.op == "call" and t.args[0].op == "attr":
        b, m = t.args[0].args
        f = val(b, env)
        kw = dict(t.args[2])
        if m in ("copy", "squeeze", "tolist", "to_list"):
            return f
        if isinstance(f, tuple) and f[0] == "F" and m == "drop":
            labels = kw.get("columns")
            if labels is None and t.args[1]:
                ax = kw.get("axis", t.args[1][1] if len(t.args[1]) > 1 else None)
                if ax is not None and ax.op == "const" and ax.args[0] in (1, "columns"):
                    labels = t.args[1][0]
                elif ax is None:
                    raise Rows
            if labels is None:
                raise CantFold
            v = val(labels, env)
            v = v[1] if isinstance(v, tuple) else v if isinstance(v, list) else [v]
            return ("F", [c for c in f[1] if c not in v])
        if isinstance(f, tuple) and f[0] == "C" and m in ("drop", "difference"):
            v = val(t.args[1][0], env)
            v = v if isinstance(v, list) else [v]
            out = [c for c in f[1] if c not in v]
            return ("C", sorted(out) if m == "difference" else out)
        if isinstance(f, tuple) and f[0] in "FS" and m in ("head", "tail", "sample", "iloc", "dropna", "drop_duplicates", "nlargest", "nsmallest", "query", "unique", "sort_values"):
            raise Rows
        raise CantFold
    if t.op == "len":
        v = val(t.args[0], env)
        if isinstance(v, tuple) and v[0] == "C":
            return len(v[1])
    if t.op in ("bin",) and t.args[0] in "+-":
        a, b = val(t.args[1], env), val(t.args[2], env)
        return a + b if t.args[0] == "+" else a - b
    return fold(t, env)


def each(t, env):
    """A comprehension over columns."""
    n = seqnorm(t)
    if n is None or len(n) != 1 or n[0][0] != "each":
        raise CantFold
    _, guards, base, el, rev = n[0]
    b = val(base, env)
    if not (isinstance(b, tuple) and b[0] in "CF"):
        raise CantFold
    out = []
    for c in b[1]:
        m = {x: c for x in list(walk(el)) + [y for g in guards for y in walk(g)] if is_elem(x, base)}
        if all(val(g, {**env, **m}) for g in guards):
            out.append(val(el, {**env, **m}))
    return out[::-1] if rev else out


def select(cols, k, env, pos):
    if k.op == "sl":
        if not pos:
            raise CantFold
        return ("F", cut(cols, k, env))
    v = val(k, env)
    if isinstance(v, tuple) and v[0] == "C":
        v = v[1]
    if isinstance(v, list):
        if v and all(isinstance(x, bool) for x in v):
            return ("F", [c for c, y in zip(cols, v) if y])
        return ("F", [cols[x] for x in v] if pos else list(v))
    if pos:
        return ("S", cols[v])
    return ("S", v)


COLS = ["b", "d", "a", "c"]


@rule("C24", "target-column", "for every choice of target column (none, any of the columns, one that does not exist): the named column or the last is the target, all others in order the features, all rows stay, and an unknown name is refused")
def target(ctx):
    r = ctx.run(LOAD, opaque=(D + "file_to_pandas",))
    sc = P(r, "split_column", 1)
    loads = r.calls("file_to_pandas")
    if not loads:
        ctx.abort("the file is not read with file_to_pandas")
    data = loads[0].res
    for e in loads:
        for n, pos in (("file_path", 0), ("encoding", 1)):
            want = P(r, n, {"file_path": 0, "encoding": 2}[n])
            a = e.kw(n, pos)
            if want is not None:
                ctx.decide(a is want if a is not None else False, e.where(), f"the file is read with the given {n}", n)
        kw = r.fn.node.args.kwarg
        if kw is not None:
            st = [v for k, v in e.kwargs or () if k == "**"]
            ctx.decide(bool(st) and (st[0] is mk("param", kw.arg) or None), e.where(), "the file is read with the given options", "options")
    dirty = [e for e in r.events if (e.kind in ("delitem", "setitem", "mutate") and e.base is data) or (e.kind == "call" and e.callee in (".pop", ".insert") and e.base is data) or (e.kind == "call" and e.base is data and e.kw("inplace") is not None)]
    for s in [None] + COLS + ["no such column"]:
        env = {data: ("F", COLS), sc: s, mk("cmp", "in", sc, mk("attr", data, "columns")): s in COLS, mk("cmp", "in", sc, data): s in COLS}
        live = []
        for e in r.events:
            if e.kind == "raise" or e.kind == "return" and [c for c in e.ctx if c[0] == "fn"][-1][2] == 0:
                gs = []
                for g in e.guards:
                    try:
                        gs.append(bool(val(g, env)))
                    except (CantFold, Rows, TypeError):
                        gs.append(None)
                g = False if False in gs else None if None in gs else True
                if g is not False:
                    live.append((g, e))
        what = "no target named" if s is None else f"target {s!r}"
        if len(live) != 1 or live[0][0] is None:
            ctx.unk(fwhere(r), f"{what}: not decided", "split")
            continue
        e = live[0][1]
        if s is not None and s not in COLS:
            ctx.decide(e.kind == "raise", e.where(), "an unknown target column is refused", "unknown")
            continue
        if e.kind == "raise":
            ctx.bad(e.where(), f"NOT: {what}: the data is returned", "refuses")
            continue
        v = r.ex(e.value, e)
        wt = COLS[-1] if s is None else s
        wf = [c for c in COLS if c != wt]
        for i, (name, want) in enumerate((("features", ("F", wf)), ("target", ("S", wt)))):
            x = v.args[0][i] if v.op == "tuple" and len(v.args[0]) == 2 else mk("item", v, const(i))
            try:
                got = val(part(x), env)
            except Rows:
                ctx.bad(e.where(), f"NOT: {what}: all rows of the {name} are returned", f"rows:{name}")
                continue
            except (CantFold, TypeError, IndexError, KeyError):
                ctx.unk(e.where(), f"{what}: {name} not decided", f"split:{name}")
                continue
            good = got == want
            ctx.decide(True if good and not dirty else None if dirty else False, e.where(), f"{what}: the {name} are {want[1]} (they are {got[1] if isinstance(got, tuple) else got})", f"split:{name}")


@rule("C24", "arff-types", "an arff file's data get its attribute names in order, and exactly the nominal attributes become categories")
def arff(ctx):
    r = ctx.run(D + "arff_to_pandas")
    loads = r.calls("arff.load")
    if not loads:
        ctx.abort("arff.load not found")
    d = loads[0].res
    opens = r.calls("builtins.open")
    for e in opens:
        a, enc = e.kw("file", 0), e.kw("encoding", 3)
        ctx.decide(a is P(r, "file_path", 0), e.where(), "the file at the given path is opened", "path")
        ctx.decide(enc is P(r, "encoding", 1) if enc is not None else False, e.where(), "the file is opened with the given encoding", "encoding")
    for e in loads:
        kwn = r.fn.node.args.kwarg
        if kwn is not None:
            st = [v for k, v in e.kwargs or () if k == "**"]
            ctx.decide(True if any(contains(r.ex(v, e), lambda x: x is mk("param", kwn.arg)) for v in st) else False if not e.kwargs else None, e.where(), "the options the caller gave reach the arff reader", "options")
    A, DATA = mk("item", d, const("attributes")), mk("item", d, const("data"))
    frames = r.calls("pandas.DataFrame") + [e for e in r.events if e.kind == "new" and e.callee == "pandas.DataFrame"]
    ret = r.returns()
    for e in frames:
        a, c = e.kw("data", 0), e.kw("columns", 2)
        c = r.ex(c, e) if c is not None else None
        ctx.decide(True if a is DATA else None if a is None or vague(a) or not contains(a, DATA) else False if a.op in ("slice", "item", "rev") else None, e.where(), "all rows of the file are in the table", "rows")
        ok = None
        srt = c
        while srt is not None and srt.op in ("list", "tuple") and len(srt.args[0]) == 1 and srt.args[0][0].op == "seg_splice":
            srt = srt.args[0][0].args[0]
        if srt is not None and (srt.op in ("sorted", "rev") or is_call(srt, "sorted", "reversed")):
            ok = False
        elif c is not None:
            z = c.args[0] if c.op == "item" else None
            if z is not None and is_call(z, "zip") and z.args[1] and z.args[1][0].op == "star" and z.args[1][0].args[0] is A:
                ok = c.args[1] is const(0)
            else:
                n = seqnorm(c)
                if n is not None and len(n) == 1 and n[0][0] == "each" and n[0][2] is A:
                    ok = True if is_item(n[0][3], 0) and not n[0][1] and not n[0][4] else False if n[0][4] or (n[0][3].op == "item" and n[0][3].args[1] is not const(0)) else None
        elif r.events:
            ok = False if not [x for x in r.events if x.kind == "setattr" and x.name == "columns"] else None
        ctx.decide(ok, e.where(), "the columns are named after the attributes, in order", "names")
    if len(frames) != 1 or not ret:
        ctx.unk(fwhere(r), "the table is not one DataFrame", "frame")
        return
    df = frames[0].res
    for e in ret:
        alt = altered(e.value, df) if isinstance(e.value, Term) else None
        ctx.decide(True if e.value is df else False if alt else None, e.where(), "the table made from the file is returned, with all its rows" + (f" ({', '.join(alt)})" if alt else ""), "returned")
    # conversion of nominal attributes
    conv = [e for e in r.events if e.kind == "setitem" and e.base is df]
    if not conv:
        bulk = [e for e in r.events if e.kind == "call" and e.callee == ".astype"]
        ctx.decide(None if bulk else False, fwhere(r), "nominal attributes become categories", "nominal")
        return
    for e in conv:
        k = e.name
        el = k.args[0] if isinstance(k, Term) and k.op == "item" and k.args[1] is const(0) else None
        lid = [c[1] for c in e.ctx if c[0] == "loop"]
        if el is None or not is_elem(el, A) or len(lid) != 1:
            ctx.unk(e.where(), "which attribute is converted is not known", "nominal")
            continue
        L = r.it.loops[lid[0]]
        ctx.decide(not L["breaks"], e.where(), "all attributes are looked at", "all")
        v = e.value
        col = mk("item", df, k)
        cat = is_call(v, ".astype") and v.args[0].args[0] is col and v.args[1] and v.args[1][0] is const("category") or is_call(v, "pandas.Categorical") or is_call(v, ".astype") and v.args[0].args[0] is col and v.args[1] and is_call(v.args[1][0], "CategoricalDtype")
        for dt, want in ((["x", "y"], True), ([], True), (["a"], True), ([f"v{i}" for i in range(40)], True), ([f"v{i}" for i in range(3000)], True), ("REAL", False), ("NUMERIC", False), ("INTEGER", False), ("STRING", None)):
            g = on(e.guards, {mk("item", el, const(1)): dt})
            if want is None:
                continue
            if want is False and not cat:
                continue        # other conversions of numeric columns are not about categories
            ctx.decide(None if g is None else (g is want if cat else None), e.where(), f"an attribute declared {dt} {'becomes a category' if want else 'is not turned into a category'}", f"nominal:{want}")


@rule("C24", "csv-options", "a csv file is read with the separator and header the caller gave, else with the ones found in the file, and its column types are inferred")
def csv(ctx):
    r = ctx.run(D + "csv_to_pandas", opaque=(D + "sniff_csv_meta", "gama.data_formatting.infer_categoricals_inplace"))
    reads = r.calls("pandas.read_csv")
    kwn = r.fn.node.args.kwarg
    if not reads or kwn is None:
        ctx.abort("pandas.read_csv not found")
    e = reads[0]
    KW = mk("param", kwn.arg)
    sniff = [x.res for x in r.calls("sniff_csv_meta")]
    a = e.kw("filepath_or_buffer", 0)
    ctx.decide(a is P(r, "file_path", 0), e.where(), "the file at the given path is read", "path")
    for s in r.calls("sniff_csv_meta"):
        ctx.decide(s.kw("file_path", 0) is P(r, "file_path", 0), s.where(), "separator and header are looked for in the same file", "sniffed")
    direct = {k: v for k, v in e.kwargs or () if k != "**"}
    star = [v for k, v in e.kwargs or () if k == "**"]
    thru = bool(star) and (any(v is KW for v in star) or any(contains(r.ex(v, e), lambda x: x is KW) for v in star))
    ctx.decide(True if thru else False if not star else None, e.where(), "other options the caller gave reach pandas", "others")
    foreign = {x for ev in r.events if ev.seq <= e.seq for t in list(ev.guards) + [v for v in (ev.value,) if isinstance(v, Term)] + list(ev.args or ()) + [v for _, v in ev.kwargs or ()]
               for x in walk(t) if x.op == "cmp" and x.args[0] == "in" and x.args[2] is KW and x.args[1].op == "const" and x.args[1].args[0] not in ("sep", "header")}
    for has_sep in (True, False):
        for has_head in (True, False):
            for head in (True, False):
                env = {**{x: False for x in foreign}, mk("cmp", "in", const("sep"), KW): has_sep, mk("cmp", "in", const("header"), KW): has_head,
                       mk("item", KW, const("sep")): "given sep", mk("item", KW, const("header")): "given header"}
                for s in sniff:
                    env[mk("item", s, const(0))] = "found sep"
                    env[mk("item", s, const(1))] = head
                for opt, given, want in (("sep", has_sep, "found sep"), ("header", has_head, 0 if head else None)):
                    want = f"given {opt}" if given else want
                    sit = f"separator {'given' if has_sep else 'not given'}, header {'given' if has_head else 'not given'}, file {'with' if head else 'without'} header"
                    got = what(r, e, KW, opt, direct, star, env)
                    if got is None:
                        ctx.unk(e.where(), f"{sit}: {opt} not decided", opt)
                        continue
                    got = got[0]
                    ctx.decide(got == want and (got is None) == (want is None) and not isinstance(got, bool), e.where(), f"{sit}: {opt} is {want!r} (it is {got!r})", opt)
    inf = r.calls("infer_categoricals_inplace")
    for ret in r.returns():
        ok = [x for x in inf if (x.kw("df", 0) is ret.value or x.args and x.args[0] is ret.value) and not x.guards]
        ctx.decide(True if ok else False if not inf else None, ret.where(), "the types of the columns are inferred", "types")
        v = ret.value
        alt = altered(v, e.res)
        ctx.decide(True if v is e.res or is_call(v, ".infer_objects") and v.args[0].args[0] is e.res else False if alt else None, ret.where(), "the table read is returned, with all its rows" + (f" ({', '.join(alt)})" if alt else ""), "returned")


def what(r, e, KW, opt, direct, star, env):
    """[value] of option opt of the call in the situation; None if not known."""
    try:
        if opt in direct:
            return [fold(r.ex(direct[opt], e), env)]
        if not star:
            return ["the default of pandas"]
        if len(star) != 1:
            return None
        if star[0] is KW:
            v = fold(mk("cmp", "in", const(opt), KW), env)
            cur = [fold(mk("item", KW, const(opt)), env)] if v else ["nothing"]
            for x in r.events:
                if x.seq < e.seq and x.kind == "setitem" and x.base is KW and x.name is const(opt):
                    g = on(x.guards, env)
                    if g is None:
                        return None
                    if g:
                        cur = [fold(r.ex(x.value, x), env)]
                if x.seq < e.seq and x.base is KW and x.kind in ("mutate", "delitem") or (x.seq < e.seq and x.kind == "call" and x.base is KW and x.callee in (".pop", ".update", ".setdefault")):
                    if x.kind == "call" and x.callee == ".setdefault" and x.args and x.args[0] is const(opt):
                        g = on(x.guards, env)
                        if g is None:
                            return None
                        if g and cur == ["nothing"]:
                            cur = [fold(r.ex(x.args[1], x), env)]
                    else:
                        return None
            return cur
        t = r.ex(star[0], e)
        if t.op == "dict":
            cur = ["nothing"]
            for s in t.args[0]:
                if s.op == "seg_pair" and s.args[0].op == "const":
                    if s.args[0] is const(opt):
                        cur = [fold(s.args[1], env)]
                elif s.op == "seg_splice" and s.args[0] is KW:
                    if fold(mk("cmp", "in", const(opt), KW), env):
                        cur = [fold(mk("item", KW, const(opt)), env)]
                else:
                    return None
            return cur
    except CantFold:
        pass
    return None


@rule("C24", "sniff", "the separator and the presence of a header are those of the start of the file")
def sniff(ctx):
    r = ctx.run(D + "sniff_csv_meta")
    p = P(r, "file_path", 0)
    for e in r.returns():
        v = r.ex(e.value, e)
        if v.op != "tuple" or len(v.args[0]) != 2:
            ctx.unk(e.where(), "what is returned is not known", "pair")
            continue
        a, b = (part(x) for x in v.args[0])
        ca, cb = is_attr(a, "delimiter"), is_call(b, ".has_header")
        if is_call(a, ".has_header") and is_attr(b, "delimiter"):
            ctx.bad(e.where(), "NOT: the separator comes first and the presence of a header second", "pair")
            continue
        neg = b.op == "not" and is_call(b.args[0], ".has_header")
        ctx.decide(True if ca and cb else False if neg or (b.op == "const") or (a.op == "const") else None, e.where(), "the separator found and whether there is a header are returned", "pair")
        for x in walk(v):
            if is_call(x, "builtins.open"):
                ctx.decide(kwarg(x, "file", 0) is p, e.where(), "the given file is looked at", "file")


@rule("C24", "from-file", "fit, predict and score from a file use the file, target column, encoding and options the caller gave, features as features and target as target")
def callers(ctx):
    for q in (G + "fit_from_file", G + "score_from_file", G + "predict_from_file", GC + "predict_proba_from_file"):
        if not ctx.has(q):
            continue
        r = ctx.run(q, opaque=(LOAD, G + "fit", G + "score", G + "predict", GC + "fit", G + "_prepare_for_prediction", G + "_predict", GC + "predict_proba", GC + "_predict_proba"))
        loads = r.calls("X_y_from_file")
        if not loads:
            ctx.unk(fwhere(r), f"{q}: the file is not read with X_y_from_file", "load")
            continue
        kw = r.fn.node.args.kwarg
        for e in loads:
            for n, pos, names, want in (("file_path", 0, ("file_path",), P(r, "file_path", 0)), ("split_column", 1, (), P(r, "target_column", 1)), ("encoding", 2, (), P(r, "encoding", 2))):
                a = e.kw(n, pos)
                ctx.decide(True if a is want else False if a is None or a.op in ("param", "const") or a is NONE else None, e.where(), f"{q.rsplit('.', 1)[1]}: the given {n} is used", f"{q.rsplit('.', 1)[1]}:{n}")
            if kw is not None:
                st = [v for k, v in e.kwargs or () if k == "**"]
                ctx.decide(True if any(v is mk("param", kw.arg) for v in st) else False if not st else None, e.where(), f"{q.rsplit('.', 1)[1]}: the given options are used", f"{q.rsplit('.', 1)[1]}:options")
        xy = loads[0].res
        for e in r.events:
            if e.kind == "call" and e.callee.rsplit(".", 1)[-1] in ("fit", "score") and (e.args or e.kwargs):
                for i, n in enumerate(("x", "y")):
                    a = e.kw(n, i)
                    if a is None:
                        continue
                    it = a.op == "item" and a.args[0] is xy and a.args[1].op == "const"
                    ctx.decide(a.args[1].args[0] == i if it else False if a is xy else None, e.where(), f"{q.rsplit('.', 1)[1]}: {'features' if i == 0 else 'target'} of the file are used as such", f"{q.rsplit('.', 1)[1]}:{n}")
                if e.callee.rsplit(".", 1)[-1] == "fit" and P(r, "warm_start") is not None:
                    a = e.kw("warm_start", 2)
                    ctx.decide(True if a is P(r, "warm_start") else False if a is None or a is NONE else None, e.where(), "fit_from_file: warm start candidates are passed on", "warm_start")
        if q.endswith("fit_from_file"):
            ctx.decide(any(e.kind == "call" and e.callee.rsplit(".", 1)[-1] == "fit" and not e.guards for e in r.events) or None, fwhere(r), "fit_from_file: the data of the file is fitted", "fits")
