"""The evaluation log (C20) and the report that reads it (C34)."""
from __future__ import annotations

from vp import arith
from vp.check import rule
from vp.conc import Broken, CantFold as Unknown, conc
from vp.rules.util import *  # noqa: F401,F403
from vp.rules.util import P
from vp.terms import ite, subst

L = "gama.logging.evaluation_logger.EvaluationLogger"
OS = "gama.genetic_programming.operator_set.OperatorSet."
SM = "gama.search_methods."
EA = SM + "async_ea.AsyncEA"
AH = SM + "asha.AsynchronousSuccessiveHalving"
ME = mk("param", "self")
EV = mk("param", "evaluation")
IND = mk("attr", EV, "individual")
META = mk("attr", IND, "meta")


def path(t, *names):
    for n in names:
        t = mk("attr", t, n)
    return t


def apply(r, f, arg):
    """Value of calling the function term f with one argument, after r."""
    s = r.state
    return r.it.call(s.copy() if hasattr(s, "copy") else s, f, [arg], (), r.fn.node)


def stored_fields(r):
    """[(name, getter)] of the default columns set by __init__, or None."""
    for e in r.events:
        if e.kind == "setattr" and e.base is ME and e.name == "fields":
            for v, _ in leaves(e.value):
                d = r.ex(v, e)
                if d.op == "dict" and all(s.op == "seg_pair" and is_const(s.args[0]) for s in d.args[0]):
                    return e, [(cval(s.args[0]), s.args[1]) for s in d.args[0]]
    return None


WANT = {
    "id": (path(IND, "_id"), "the identity of the individual"),
    "pid": (path(EV, "pid"), "the process that evaluated it"),
    "t_start": (path(IND, "fitness", "start_time"), "the start time"),
    "t_wallclock": (path(IND, "fitness", "wallclock_time"), "the wall clock time"),
    "t_process": (path(IND, "fitness", "process_time"), "the process time"),
    "score": (path(IND, "fitness", "values"), "the scores"),
    "error": (path(EV, "error"), "the error"),
}


def pushed(t):
    """Items of alternatives as alternatives of items."""
    if t.op == "ite":
        return ite(t.args[0], pushed(t.args[1]), pushed(t.args[2]))
    if t.op == "item" and t.args[0].op == "ite":
        c, a, b = t.args[0].args
        return ite(c, pushed(mk("item", a, t.args[1])), pushed(mk("item", b, t.args[1])))
    return t


def own_meta(t, key, n=None):
    """True: meta[key] (or meta[key][n]) of the evaluated individual where present, False: something else, None: not known."""
    want = mk("item", META, const(key))
    if n is not None:
        want = mk("item", want, const(n))
    ls = [x for x, _ in leaves(pushed(t)) if not (x.op == "item" and x.args[0].op in ("listobj", "list", "tuple"))]
    if any(x is want for x in ls):
        return True if all(x is want or is_const(x) for x in ls) else None
    if all(is_const(x) or x.op in ("item", "attr") and (contains(x, META) or contains(x, EV)) for x in ls):
        return False
    return None


@rule("C20", "columns", "each column of the log takes the value its name announces from the logged evaluation")
def columns(ctx):
    r = ctx.run(L + ".__init__")
    got = stored_fields(r)
    if got is None:
        ctx.abort("default columns not found")
        return
    e, fs = got
    names = [n for n, _ in fs]
    for n in list(WANT) + ["pipeline"]:
        ctx.decide(n in names, e.where(), f"the log has a column {n!r}", f"has:{n}")
    for n, g in fs:
        if n not in WANT and n != "pipeline":
            continue
        v = apply(r, g, EV)
        if n == "pipeline":
            ok = is_call(v, ".pipeline_str") and v.args[0].args[0] is IND or v is mk("pure", "str", (path(IND, "main_node"),), ())
            ctx.decide(True if ok else False if is_const(v) or v.op == "attr" and contains(v, EV) else None, e.where(), "column 'pipeline' has the pipeline of the individual", "pipeline")
            continue
        w, what = WANT[n]
        def_ = v.op == "attr" and contains(v, EV) or is_const(v)
        ctx.decide(True if v is w else False if def_ else None, e.where(), f"column {n!r} has {what} ({show_(v)})", f"value:{n}")


@rule("C20", "extra-columns", "columns that search methods add are about the logged individual, under the keys where parents, origin, rung and sample size are recorded")
def extra(ctx):
    for cls, want in ((EA, {"parent0": ("parents", 0), "parent1": ("parents", 1), "origin": ("origin", None)}), (AH, {"rung": ("rung", None), "subsample": ("subsample", None)})):
        r = ctx.run(cls + ".__init__", self_cls=cls)
        es = [e for e in r.events if e.kind == "setattr" and e.base is ME and e.name == "logger"]
        if not es:
            ctx.unk(fwhere(r), "log format of the search method", "logger")
            continue
        e = es[-1]
        kw = None
        if e.value.op == "partial":
            kw = dict(e.value.args[2]).get("extra_fields")
        elif e.value.op == "cls":
            ctx.bad(e.where(), f"NOT: {', '.join(want)} are logged", "has")
            continue
        d = r.ex(kw, e) if kw is not None else None
        if d is None or d.op != "dict" or not all(s.op == "seg_pair" and is_const(s.args[0]) for s in d.args[0]):
            ctx.unk(e.where(), "additional columns", "has")
            continue
        fs = {cval(s.args[0]): s.args[1] for s in d.args[0]}
        for n, (key, i) in want.items():
            if n not in fs:
                ctx.bad(e.where(), f"NOT: the log has a column {n!r}", f"has:{n}")
                continue
            v = apply(r, fs[n], EV)
            cut = [x for x, _ in leaves(v) if x.op == "slice" and contains(x, const(key)) and any(is_const(y) and cval(y) not in (None, 0) for y in x.args[1:3])]
            ctx.decide(False if cut else own_meta(v, key, i), e.where(), f"column {n!r} has {key}{'' if i is None else f' number {i}'} of the individual", f"value:{n}")
            if i is not None and own_meta(v, key, i):
                # present whenever there are that many parents: n present iff more than n
                miss = present(r, v, i)
                ctx.decide(miss, e.where(), f"column {n!r} is filled whenever there is such a parent, and only then", f"present:{n}")


def present(r, v, i):
    """Whether the n-th parent is taken exactly for more than n parents."""
    ok = []
    lens = [x for x in walk(v) if x.op == "len"]
    for k in range(0, 4):
        env = {x: k for x in lens}
        env[mk("cmp", "in", const("parents"), META)] = True
        t = pushed(v)
        while t.op == "ite":
            c = foldb(t.args[0], env)
            if c is None:
                return None
            t = t.args[1] if c else t.args[2]
        ok.append((t is not None and not is_const(t)) == (k > i))
    return all(ok)


def meta_at(r, e, obj):
    """[(key, value)] of obj.meta at a return event."""
    m = attr_at(r, e, obj, "meta")
    if m is None:
        return None
    d = r.ex(m, e)
    if d.op != "dict" or not all(s.op == "seg_pair" and is_const(s.args[0]) for s in d.args[0]):
        return None
    return {cval(s.args[0]): s.args[1] for s in d.args[0]}


@rule("C20", "recorded", "parents and origin are recorded for every new individual, rung and sample size for every evaluation on a rung")
def recorded(ctx):
    for m, parents, origin in (("mate", ("ind1", "ind2"), "cx"), ("mutate", ("ind",), None), ("individual", (), "new")):
        r = ctx.run(OS + m)
        sets = [e for e in r.events if e.kind == "return" and e.value.op in ("obj", "item")]
        sets = [e for e in sets if (e.value.op == "obj" and e.value.args[0].endswith(".Individual") or e.value.op == "item" and is_call(e.value.args[0], "._mate"))]
        if not sets:
            ctx.unk(fwhere(r), f"{m}: new individual not found", f"{m}:new")
            continue
        e = sets[-1]
        d = meta_at(r, e, e.value)
        mv = attr_at(r, e, e.value, "meta")
        if mv is not None and is_attr(mv, "meta") and mv.args[0].op == "param":
            ctx.bad(e.where(), f"NOT: {m}: a new individual has a record of its own, not that of its parent", f"{m}:own")
        if d is None:
            ctx.unk(e.where(), f"{m}: record of the new individual", f"{m}:new")
            continue
        if parents:
            got = d.get("parents")
            got = r.ex(got, e) if got is not None else None
            items = None if got is None or got.op not in ("list", "tuple") else [s.args[0] if s.op == "seg_item" else s for s in got.args[0]]
            want = [mk("attr", mk("param", p), "_id") for p in parents]
            # a pickled or differently written identity would no longer match the id column
            ctx.decide(False if got is None or items is not None and items != want and not any(vague(x) for x in items) else True if items == want else None, e.where(), f"{m}: the identities of {', '.join(parents)} are recorded as parents", f"{m}:parents")
        else:
            ctx.decide("parents" not in d, e.where(), f"{m}: has no parents", f"{m}:parents")
        o = d.get("origin")
        if origin is not None:
            ctx.decide(False if o is None or is_const(o) and cval(o) != origin else True if is_const(o) else None, e.where(), f"{m}: the origin is {origin!r}", f"{m}:origin")
        else:
            ctx.decide(False if o is None or is_const(o) else True if is_attr(o, "__name__") and any(is_call(x, "._mutate") for x in walk(o)) else None, e.where(), f"{m}: the origin is the name of the mutation", f"{m}:origin")
    q = SM + "asha.evaluate_on_rung"
    r = ctx.run(q)
    res = [x.res for x in r.events if x.kind == "call" and x.f is mk("param", "evaluate_individual")]
    rets = r.returns()
    if len(res) != 1 or not rets:
        ctx.unk(fwhere(r), "evaluation on a rung", "rung")
        return
    met = path(res[0], "individual", "meta")
    sets = {e.name if not isinstance(e.name, Term) else cval(e.name): e for e in r.events if e.kind == "setitem" and e.base is met and (not isinstance(e.name, Term) or is_const(e.name))}
    for e in rets:
        ctx.decide(True if e.value is res[0] else None, e.where(), "the evaluation itself is reported", "rung:same")
    for k, ok in (("rung", lambda v: True if v is mk("param", "rung") else False if is_const(v) or v.op == "param" else None),
                  ("subsample", lambda v: True if contains(v, mk("param", "kwargs")) and contains(v, const("subsample")) else False if is_const(v) or v.op == "param" else None)):
        e = sets.get(k)
        if e is None:
            other = [x for x in r.events if x.kind in ("call", "mutate") and x.base is not None and contains(x.base, met)]
            up = [v for x in other for kk, v in (x.kwargs or ()) if kk == k]
            ctx.decide(ok(up[0]) if up else None if other else False, fwhere(r), f"the {k} of an evaluation is recorded", f"rung:{k}")
            continue
        ctx.decide(ok(e.value), e.where(), f"the {k} of an evaluation is recorded", f"rung:{k}")
        ctx.decide(True if not e.guards else None, e.where(), f"the {k} is recorded for failed evaluations, too", f"rung:{k}:always")


WRITES = (".write", ".writelines", ".writerow", ".writerows", ".to_csv", "builtins.print", ".print")


@rule("C20", "line", "a line is added at the end of the file as one write, with values quoted where they contain the separator, a quote or a line break")
def line(ctx):
    r = ctx.run(L + ".log_line")
    vals = P(r, "values", 1)
    opens = [e for e in r.events if e.kind == "call" and (e.callee in ("builtins.open", "io.open") or e.callee == ".open")]
    ws = [e for e in r.events if e.kind == "call" and e.callee in WRITES]
    if len(opens) != 1:
        ctx.unk(fwhere(r), "how the file is opened", "open")
    for e in opens:
        if e.callee != ".open":
            ctx.decide(True if e.kw("file", 0) is mk("attr", ME, "_file_path") else None, e.where(), "the line is added to this log", "file")
        m = e.kw("mode", 1 if e.callee != ".open" else 0)
        md = cval(m) if m is not None and is_const(m) else "r" if m is None else None
        ctx.decide(None if md is None else md.startswith("a"), e.where(), f"earlier lines are kept: the file is opened for appending (mode {md!r})", "append")
    if not ws:
        ctx.unk(fwhere(r), "how a line is written", "write")
        return
    once = [e for e in ws if not any(c[0] in ("loop", "for", "while") for c in e.ctx)]
    looped = [e for e in ws if e not in once]
    ctx.decide(True if len(ws) == 1 and once else False if looped or len(ws) > 1 and not any(e.guards for e in ws) else None, ws[0].where(), "a line is written in one piece, so that an interrupted write can't mix with other lines", "one-write")
    for e in ws:
        if e.callee == ".writerow":
            w = [x for x in r.calls("csv.writer") if x.res is e.base]
            if len(w) != 1:
                ctx.unk(e.where(), "writer of the line", "quoting")
                continue
            w = w[0]
            if opens and w.args:
                ctx.decide(w.args[0] is opens[0].res or None, w.where(), "the line is written to the file", "target")
            dl = w.kw("delimiter", 9)
            ctx.decide(True if dl is mk("attr", ME, "_sep") else False if dl is None or is_const(dl) else None, w.where(), "values are separated by the separator of this log", "separator")
            qt = w.kw("quoting", 9)
            no = qt is not None and (is_const(qt) and cval(qt) == 3 or any(x.op == "ext" and x.args[0].endswith("QUOTE_NONE") for x in walk(qt)))
            ctx.decide(False if no else True if qt is None or any(x.op == "ext" and x.args[0].startswith("csv.QUOTE_") for x in walk(qt)) else None, w.where(), "values with a separator, quote or line break are quoted", "quoting")
            a = e.args[0] if e.args else None
            ctx.decide(True if a is not None and same_row(r, e, a, vals) else False if a is not None and a.op == "slice" else None, e.where(), "all values are written, in order", "values")
            lt = w.kw("lineterminator", 9)
            nl = opens[0].kw("newline", 5) if opens else None
            ends = (cval(lt) if lt is not None and is_const(lt) else "\r\n" if lt is None else None)
            if ends is not None:
                ctx.decide("\n" in ends, w.where(), "a line ends with a line break", "end")
            if nl is not None and is_const(nl):
                ctx.decide(True, w.where(), "line breaks in values are kept as they are", "newline")
        elif e.callee in (".write", "builtins.print", ".print", ".writelines"):
            # text joined by hand: values may contain the separator
            a = e.args[0] if e.args else None
            joined = a is not None and any(is_call(x, ".join") and x.args[1] and contains(x.args[1][0], vals) and x.args[1][0] is vals for x in walk(a))
            ctx.decide(False if joined else None, e.where(), "values with a separator, quote or line break are quoted", "quoting")


def same_row(r, e, a, vals):
    a = r.ex(a, e)
    if a is vals:
        return True
    if a.op in ("list", "tuple") and len(a.args[0]) == 1:
        s = a.args[0][0]
        if s.op == "seg_splice" and s.args[0] is vals:
            return True
        if s.op == "seg_each" and s.args[1] is vals and not s.args[2]:
            el = s.args[3].args[0] if s.args[3].op == "seg_item" else s.args[3]
            return el is mk("elem", vals, s.args[0]) or el is mk("pure", "str", (mk("elem", vals, s.args[0]),), ())
    return False


def order_of(r, e, t, base):
    """(wrappers around the dict `base`, per-item element or None): the order in which its entries are visited."""
    t = r.ex(t, e)
    el = None
    wraps = []
    fns = []
    while True:
        if t.op == "map" and len(t.args) == 2:
            fns.append(t.args[0])
            t = t.args[1]
        elif t.op in ("list", "tuple") and len(t.args[0]) == 1 and t.args[0][0].op == "seg_splice":
            t = t.args[0][0].args[0]
        elif t.op in ("list", "tuple") and len(t.args[0]) == 1 and t.args[0][0].op == "seg_each":
            lid, b, g, x = t.args[0][0].args
            if el is not None:
                return None
            el = (lid, b, x.args[0] if x.op == "seg_item" else x, tuple(g))
            t = b
        elif t.op in ("values", "keys", "items"):
            t = t.args[0]
        elif is_call(t, ".values", ".keys", ".items"):
            t = t.args[0].args[0]
        elif t.op == "sorted":
            wraps.append(("sorted", t.args[1], t.args[2]))
            t = t.args[0]
        elif t.op == "rev":
            wraps.append(("rev",))
            t = t.args[0]
        elif t.op == "slice":
            wraps.append(("slice", t.args[1:]))
            t = t.args[0]
        else:
            break
    if not any(t is b for b in base):
        return None
    return wraps, el, fns


@rule("C20", "row", "the header names the columns once, first; every evaluation adds one row with exactly one value per column, in the order of the header")
def row(ctx):
    r = ctx.run(L + ".__init__", opaque=(L + ".log_line",))
    hs = [e for e in r.events if e.kind == "call" and e.callee.endswith(".log_line")]
    heads = None
    if len(hs) != 1:
        ctx.decide(False if not hs and not any(x.kind == "call" and x.callee in WRITES for x in r.events) else None, fwhere(r), "a header is written once", "header")
    else:
        e = hs[0]
        ctx.decide(True if not e.guards else None, e.where(), "a header is written for every log", "header")
        late = [x for x in r.events if x.seq > e.seq and (x.kind == "setattr" and x.name == "fields" or x.kind == "mutate" or x.kind == "call" and x.callee == ".update")]
        ctx.decide(not late, e.where(), "the header is written when all columns are known", "header-last")
        for nm in ("_file_path", "_sep"):
            s = [x for x in r.events if x.kind == "setattr" and x.name == nm and x.base is ME]
            p = mk("param", {"_file_path": "file_path", "_sep": "separator"}[nm])
            ctx.decide(True if len(s) == 1 and s[0].value is p and s[0].seq < e.seq else False if s and all(is_const(x.value) for x in s) or s and s[0].seq > e.seq else None, e.where(), f"the {p.args[0]} given is used", nm)
        cur = attr_at(r, e, ME, "fields")
        a = e.kw("values", 0)
        if a is not None and cur is not None:
            heads = order_of(r, e, a, {cur, r.ex(cur, e), mk("attr", ME, "fields")} | {x for x, _ in leaves(cur)})
        if heads is None:
            ctx.unk(e.where(), "names in the header", "names")
        else:
            w, el, fns = heads
            plain = (el is None or el[2].op in ("elem", "key")) and not fns
            ctx.decide(True if plain and not (el and el[3]) and not any(x[0] == "slice" for x in w) else False if el and el[3] or any(x[0] == "slice" for x in w) else None, e.where(), "the header has the names of all columns", "names")
        upd = [x for x in r.events if (x.kind == "mutate" and x.name == "update" or x.kind == "call" and x.callee == ".update")]
        ex = mk("param", "extra_fields")
        on_ = {mk("cmp", "is", ex, NONE): False, ex: {"a": 1}}
        ok = [x for x in upd if x.args and x.args[0] is ex]
        val = None if cur is None else any(contains(v, ex) for v, _ in leaves(r.ex(cur, e)))
        ctx.decide(True if ok or val else None if upd or cur is None or vague(cur) else False, fwhere(r), "additional columns are added", "extra")
        for x in ok:
            g = on([y for y in x.guards if y is not mk("cmp", "is", mk("param", "fields"), NONE) and y is not neg(mk("cmp", "is", mk("param", "fields"), NONE))], on_)
            ctx.decide(g, x.where(), "additional columns are added whenever there are any", "extra-when")
    r = ctx.run(L + ".log_evaluation", opaque=(L + ".log_line",))
    ev = P(r, "evaluation", 1)
    F = mk("attr", ME, "fields")
    ls = [e for e in r.events if e.kind == "call" and e.callee.endswith(".log_line")]
    if len(ls) != 1:
        ctx.decide(False if not ls and not any(x.kind == "call" and (x.callee in WRITES or vague(x.f)) for x in r.events) or len(ls) > 1 and not any(e.guards for e in ls) else None, fwhere(r), "every evaluation adds one line", "once")
        if not ls:
            return
    for e in ls:
        loop = any(c[0] in ("loop", "for", "while") for c in e.ctx)
        dep = [g for g in e.guards if any(contains(g, x) for x in (ev, F))]
        ctx.decide(False if loop else True if not e.guards else False if dep and len(ls) == 1 else None, e.where(), "every evaluation, successful or failed, adds a line", "always")
        a = e.kw("values", 0)
        got = order_of(r, e, a, {F}) if a is not None else None
        if got is None:
            ctx.unk(e.where(), "values of a row", "row")
            continue
        w, el, fns = got
        if heads is not None:
            same = [x[0] for x in w] == [x[0] for x in heads[0]] and not any(x[0] == "sorted" for x in w)
            ctx.decide(True if same else None if any(x[0] == "sorted" for x in w) and any(x[0] == "sorted" for x in heads[0]) else False, e.where(), "values are in the order of the header", "row-order")
        if el is None:
            ctx.unk(e.where(), "values of a row", "row")
            continue
        ctx.decide(not el[3], e.where(), "there is a value for every column", "row-all")
        v = el[2]
        for f in reversed(fns):
            v = apply(r, f, v)
        src = [x for x in walk(v) if x.op == "call" and x.args[0].op == "item" and x.args[0].args[0] is F or x.op == "call" and x.args[0].op == "elem" and contains(x.args[0], F)]
        src = list(dict.fromkeys(src))
        if len(src) != 1 or list(src[0].args[1]) != [ev]:
            ctx.unk(e.where(), "value of a column", "row-value")
            continue
        ctx.ok(e.where(), "the value of a column is taken from the logged evaluation", "row-value")
        x = mk("param", "a value")
        v = subst(v, {src[0]: x})
        for kind in ("a time", "another value"):
            t = v
            while t.op == "ite":
                env = {y: kind == "a time" for y in walk(t.args[0]) if y.op == "isinstance" and y.args[0] is x and y.args[1].op in ("ext", "cls") and y.args[1].args[0].endswith("datetime")}
                env.update({y: kind == "a time" for y in walk(t.args[0]) if y.op == "hasattr" and y.args[0] is x and y.args[1] is const("strftime")})
                c = foldb(t.args[0], env)
                if c is None:
                    break
                t = t.args[1] if c else t.args[2]
            if t.op == "ite":
                ctx.unk(e.where(), f"{kind}: text not decided", "row-text")
            elif kind == "a time":
                ok = is_call(t, ".strftime") and t.args[0].args[0] is x
                tf = t.args[1][0] if ok and t.args[1] else None
                full = tf is not None and is_const(tf) and all(c in cval(tf) for c in ("%Y", "%m", "%d", "%H", "%M", "%S", "%f"))
                ctx.decide(True if full else False if tf is not None and is_const(tf) or t is x or t.op == "pure" else None, e.where(), "times are written with date, time and fraction of a second", "row-time")
            else:
                ctx.decide(True if t is x or t.op == "pure" and t.args[0] in ("str", "repr") and t.args[1][0] is x else False if t.op == "slice" or t.op == "pure" and t.args[0] == "format" or is_const(t) or any(is_call(y, ".replace", ".strip") for y in walk(t)) else None, e.where(), "other values are written in full", "row-text")


# ------------------------------------------------------------------ C34
R = "gama.logging.GamaReport."
GR = R + "GamaReport"
TK = "gama.utilities.generic.timekeeper.TimeKeeper.start_activity"
G = "gama.gama.Gama"
STAMP = "2023-04-05 06:07:08,091"


def logged(r, prefix):
    """Log calls whose message starts with a constant prefix: [(event, message term)]."""
    out = []
    for e in r.events:
        if e.kind == "call" and e.callee.rsplit(".", 1)[-1] in ("info", "debug", "warning", "log") and e.args:
            a = r.ex(e.args[-1] if e.callee.endswith(".log") else e.args[0], e)
            t = a
            while t.op == "fstr" and t.args[0]:
                t = t.args[0][0]
            if is_const(t) and isinstance(cval(t), str) and cval(t).startswith(prefix):
                out.append((e, a))
    return out


def log_format(ctx):
    """The format of lines of gama.log."""
    r = ctx.run(G + ".__init__", opaque=(G + ".cleanup",))
    fs = [e for e in r.events if e.kind == "call" and e.callee == "logging.Formatter"]
    fm = [e.kw("fmt", 0) for e in fs]
    if len(fm) != 1 or fm[0] is None or not is_const(fm[0]) or fs[0].kw("datefmt", 1) not in (None, NONE) or fs[0].kw("style", 2) not in (None, const("%")):
        return None
    return cval(fm[0])


def as_line(fmt, message):
    return fmt.replace("%(asctime)s", STAMP).replace("%(name)s", "gama.gama").replace("%(message)s", message).replace("%(levelname)s", "INFO") + "\n"


def value(t, env):
    """(value, None) or (None, why not); an error of the computation is ('error', text)."""
    try:
        return conc(t, env), None
    except Broken as e:
        return None, ("error", str(e))
    except Unknown as e:
        return None, ("unknown", show_(e.args[0]) if e.args and isinstance(e.args[0], Term) else "")


SAMPLES = [
    ({"scoring": "neg_log_loss", "regularize_length": True, "search": "AsyncEA()", "post_processing": "BestFitPostProcessing()"}, ["neg_log_loss", "length"], {}),
    ({"scoring": "accuracy", "regularize_length": False, "search": "RandomSearch()", "post_processing": "NoPostProcessing()"}, ["accuracy"], {}),
    ({"scoring": "f1", "regularize_length": True, "search": "AsyncEA(population_size=30,max_n_evaluations=5)", "post_processing": "EnsemblePostProcessing(time_fraction=0.25)"}, ["f1", "length"], {"population_size": "30", "max_n_evaluations": "5"}),
    ({"scoring": ("accuracy", "neg_log_loss"), "regularize_length": True, "search": "AsynchronousSuccessiveHalving(reduction_factor=4)", "post_processing": "BestFitPostProcessing()"}, ["accuracy", "neg_log_loss", "length"], {"reduction_factor": "4"}),
    ({"scoring": ("roc_auc", "accuracy"), "regularize_length": False, "search": "AsyncEA()", "post_processing": "BestFitPostProcessing()"}, ["roc_auc", "accuracy"], {}),
]
OTHER = {"search_space": {"alpha": [0.1, 1.0], "a class": {"alpha": [], "fit_prior": [True, False]}}, "max_total_time": 3600, "n_jobs": 2, "verbosity": 30, "store": "all",
         "output_directory": "results/run_1", "preset": "simple", "random_state": 5, "max_pipeline_length": 3}


@rule("C34", "settings", "the settings a run logs at its start are read back as they were, for one and several metrics, with and without length regularisation, with and without settings of the search method")
def settings(ctx):
    fmt = log_format(ctx)
    w = ctx.run(G + ".__init__", opaque=(G + ".cleanup",))
    ms = logged(w, "INIT")
    if fmt is None or len(ms) != 1:
        ctx.abort("how settings are logged is not known")
        return
    e0, msg = ms[0]
    ctx.decide(True if e0.callee.endswith((".info", ".warning")) else False if e0.callee.endswith(".debug") and False else None, e0.where(), "settings are logged", "logged")
    names = [a.arg for a in w.fn.node.args.args + w.fn.node.args.kwonlyargs]
    rd = ctx.run(GR + ".__init__", self_cls=GR, opaque=(GR + ".update", R + "init_to_hps"))
    hp = ctx.run(R + "init_to_hps")
    rets = hp.returns()
    init = [x for x in rd.events if x.kind == "call" and x.callee.endswith("init_to_hps")]
    sets = [x for x in rd.events if x.kind == "setattr" and x.name == "hyperparameters"]
    met = [x for x in rd.events if x.kind == "setattr" and x.name == "metrics" and x.base is ME]
    if len(rets) != 1 or len(init) != 1 or not sets:
        ctx.abort("reader of the settings not recognised")
        return
    hv = rets[0].value
    for given, metrics, more in SAMPLES:
        sit = f"scoring {given['scoring']}, regularize_length {given['regularize_length']}, {given['search']}"
        vals = {**{n: None for n in names}, **{k: v for k, v in OTHER.items() if k in names}, **given, "self": "a Gama"}
        env = {mk("attr", mk("cls", G), "__name__"): "GamaClassifier"}
        for x in walk(msg):
            if is_call(x, "builtins.locals", "locals"):
                env[x] = {n: vals[n] for n in names}
            elif x.op == "param":
                env[x] = vals.get(x.args[0])
            elif is_attr(x, "__name__") or is_attr(x, "__class__"):
                env[x] = "GamaClassifier"
        text, why = value(msg, env)
        if why:
            ctx.unk(e0.where(), f"{sit}: text of the settings ({why[1]})", "text")
            continue
        ln = as_line(fmt, text)
        env = {}
        lines = [x for g in init[0].guards for x in walk(g) if x.op == "elem"]
        env.update({x: ln for x in lines})
        g, why = value(band(init[0].guards), env)
        if why:
            ctx.unk(init[0].where(), f"{sit}: whether the line is read ({why[1]})", "found")
            continue
        ctx.decide(bool(g), init[0].where(), f"{sit}: the line with settings is read", "found")
        arg = hp.fn.node.args.args[0].arg
        a, why = value(init[0].args[0], env)
        d, why2 = value(hp.ex(hv, rets[0]), {mk("param", arg): a}) if why is None else (None, why)
        if why2:
            ctx.decide(False if why2[0] == "error" else None, rets[0].where(), f"{sit}: settings are readable ({why2[1]})", "readable")
            continue
        ctx.ok(rets[0].where(), f"{sit}: settings are readable", "readable")
        want = {"regularize_length": str(given["regularize_length"]), "search": given["search"].split("(")[0], "store": "all", "max_total_time": "3600", "n_jobs": "2", "output_directory": "results/run_1", **more}
        for k, v in want.items():
            if k in names or k in more:
                ctx.decide(str(d.get(k)) == v, rets[0].where(), f"{sit}: {k} is read as {v} ({d.get(k)!r})", f"setting:{k}")
        # metrics of the report
        end = rd.returns()[-1] if rd.returns() else rd.events[-1]
        mt = attr_at(rd, end, ME, "metrics")
        if mt is None or not met:
            ctx.unk(fwhere(rd), f"{sit}: metrics of the report", "metrics")
            continue
        t = rd.ex(mt, end)
        env = {}
        for x in walk(t):
            if x.op == "loopphi" and "hyperparameters" in x.args[1] or is_attr(x, "hyperparameters", ME) or is_call(x, "init_to_hps") or x.op == "call" and x.args[0].op == "fn" and x.args[0].args[0].endswith("init_to_hps"):
                env[x] = d
        got, why = value(t, env)
        if why:
            ctx.decide(False if why[0] == "error" else None, met[-1].where(), f"{sit}: metrics of the report ({why[1]})", "metrics")
        else:
            ctx.decide(list(got) == metrics, met[-1].where(), f"{sit}: the report has the metrics {metrics} ({got})", "metrics")
        sm = [x for x in rd.events if x.kind == "setattr" and x.name == "search_method"]
        for x in sm:
            env2 = {y: d for y in walk(x.value) if y.op == "loopphi" or is_attr(y, "hyperparameters", ME) or y.op == "call" and y.args[0].op == "fn"}
            got, why = value(x.value, env2)
            ctx.decide(None if why else got == want["search"], x.where(), f"{sit}: the search method is {want['search']} ({got})", "search-method")


@rule("C34", "phases", "the phases of a run are read back with their name, method, start and duration from the lines the time keeper writes")
def phases(ctx):
    fmt = log_format(ctx)
    w = ctx.run(TK)
    stop, start = logged(w, "STOP"), logged(w, "START")
    rd = ctx.run(GR + ".__init__", self_cls=GR, opaque=(GR + ".update", R + "init_to_hps"))
    app = [x for x in rd.events if x.kind == "mutate" and x.name == "append" and x.args and r_tuple(rd, x) is not None]
    if fmt is None or len(stop) != 1 or len(app) != 1:
        ctx.abort("how phases are logged or read is not known")
        return
    import datetime
    e0, msg = stop[0]
    x = app[0]
    el = r_tuple(rd, x)
    lines = {y for g in x.guards for y in walk(g) if y.op == "elem"} | {y for t in el for y in walk(t) if y.op == "elem"}
    end = datetime.datetime(2023, 4, 5, 6, 7, 8, 91000)
    for act, meta, dur in (("search", ["AsyncEA"], 12.3456), ("preprocessing", ["default"], 0.0012), ("postprocess", ["EnsemblePostProcessing"], 123.5)):
        sit = f"{act} {meta[0]}"
        env = {}
        for y in walk(msg):
            if y is mk("param", "activity"):
                env[y] = act
            elif y is mk("param", "activity_meta"):
                env[y] = meta
            elif y is mk("cmp", "is", mk("param", "activity_meta"), NONE):
                env[y] = False
            elif y.op == "bin" and any(is_call(z, "time.time", "time.monotonic", "time.perf_counter") for z in walk(y)) or is_attr(y, "elapsed_time"):
                env[y] = dur
        for y in walk(msg):      # the duration, however it is computed
            if y.op == "pure" and y.args[0] in ("format", "round") and y.args[1][0] not in env and not is_const(y.args[1][0]):
                env[y.args[1][0]] = dur
        text, why = value(msg, env)
        if why:
            ctx.unk(e0.where(), f"{sit}: text of the end of a phase ({why[1]})", "text")
            continue
        ln = as_line(fmt, text)
        le = {y: ln for y in lines}
        g, why = value(band([q for q in x.guards]), le)
        if why:
            ctx.unk(x.where(), f"{sit}: whether the line is read ({why[1]})", "read")
            continue
        ctx.decide(bool(g), x.where(), f"{sit}: the line is read", "read")
        for (nm, want), t in zip((("name", act), ("method", ",".join(meta)), ("start", end - datetime.timedelta(seconds=dur)), ("duration", dur)), el):
            got, why = value(t, le)
            if why:
                ctx.decide(False if why[0] == "error" else None, x.where(), f"{sit}: {nm} ({why[1]})", nm)
                continue
            same = abs((got - want).total_seconds()) < 0.001 if nm == "start" and isinstance(got, datetime.datetime) else got == want
            ctx.decide(same, x.where(), f"{sit}: the {nm} is {want} ({got})", nm)
        # lines about the start of a phase or settings are not phases
        for other, what in ((start, "start of a phase"),):
            for e1, m1 in other:
                t1, why = value(m1, env)
                if why is None:
                    g, why = value(band(x.guards), {y: as_line(fmt, t1) for y in lines})
                    ctx.decide(None if why else not g, x.where(), f"{sit}: the {what} is not read as a phase", "other")
    # all phases of fit
    fit = ctx.run(G + ".fit", opaque=FITOP)
    n = len([c for c in fit.events if c.kind == "call" and c.callee.endswith("start_activity")])
    inc = [c for c in rd.events if c.kind == "setattr" and c.name == "incomplete"]
    for c in inc:
        ok = []
        for k in range(0, n + 1):
            env = {y: k for y in walk(c.value) if y.op == "len"}
            got, why = value(c.value, env)
            ok.append(None if why else bool(got) == (k < n))
        ctx.decide(None if None in ok or n == 0 else all(ok), c.where(), f"a run is incomplete until all {n} phases have ended", "incomplete")
    for c in [c for c in rd.events if c.kind == "call" and c.callee == "builtins.open"]:
        a = c.kw("file", 0)
        ps = [y for y in walk(a) if is_const(y) and isinstance(cval(y), str)]
        if any(cval(y).endswith("gama.log") for y in ps):
            ex = [y for y in walk(a) if is_call(y, "os.path.expanduser")]
            ctx.decide(True if ex or is_attr_in(a, "_log_directory") else None if not contains(a, mk("param", "log_directory")) else False, c.where(), "the log is read from the directory given, with ~ expanded", "directory")


def is_attr_in(a, n):
    return any(is_attr(y, n) for y in walk(a))


FITOP = ("gama.data_formatting.format_x_y", "gama.utilities.preprocessing.basic_encoding", "gama.utilities.preprocessing.basic_pipeline_extension",
         G + "._search_phase", G + ".cleanup")


def r_tuple(r, e):
    t = r.ex(e.args[0], e)
    if t.op != "tuple" or len(t.args[0]) != 4:
        return None
    return [s.args[0] if s.op == "seg_item" else s for s in t.args[0]]


@rule("C34", "evaluations", "the evaluation log is read with the separator, quoting and time format it is written with; every line becomes a row, and every column is used for what it holds")
def evaluations(ctx):
    wi = ctx.run(L + ".__init__", opaque=(L + ".log_line",))
    got = stored_fields(wi)
    d = wi.fn.node.args
    import ast
    dn = {a.arg: v for a, v in zip(d.args[len(d.args) - len(d.defaults):], d.defaults)}
    sep = dn["separator"].value if "separator" in dn and isinstance(dn["separator"], ast.Constant) else None
    we = ctx.run(L + ".log_evaluation", opaque=(L + ".log_line",))
    tf = None
    for e in we.events:
        if e.kind == "call" and e.callee == ".strftime" and e.args and is_const(e.args[0]):
            tf = cval(e.args[0])
    r = ctx.run(GR + ".update", self_cls=GR, opaque=("gama.genetic_programming.components.individual.Individual.from_string",))
    if tf is None:
        for e in we.events:
            if e.kind == "call" and e.callee.endswith(".log_line"):
                a = we.ex(e.kw("values", 0), e)
                for f in [x for x in walk(a) if x.op == "fn"]:
                    v = apply(we, f, mk("param", "v"))
                    for x in walk(v):
                        if is_call(x, ".strftime") and x.args[1] and is_const(x.args[1][0]):
                            tf = cval(x.args[1][0])
    rc = [e for e in r.events if e.kind == "call" and e.callee == "pandas.read_csv"]
    if got is None or sep is None or len(rc) != 1:
        ctx.abort("writer or reader of the evaluation log not recognised")
        return
    names = [n for n, _ in got[1]]
    e = rc[0]
    s = e.kw("sep", 1) or dict(e.kwargs or ()).get("delimiter")
    rs = cval(s) if s is not None and is_const(s) else "," if s is None else None
    ctx.decide(None if rs is None else rs == sep, e.where(), f"values are separated by {sep!r} as written ({rs!r})", "separator")
    kw = dict(e.kwargs or ())
    for k in ("skiprows", "nrows", "usecols", "skipfooter", "comment", "dtype_skip"):
        if k in kw:
            ctx.decide(True if kw[k] is NONE or kw[k] is const(0) else None if vague(kw[k]) or k == "skiprows" else False, e.where(), f"all lines and columns are read ({k})", "all-rows")
    q = kw.get("quoting")
    ctx.decide(True if q is None else False if is_const(q) and cval(q) == 3 or any(x.op == "ext" and x.args[0].endswith("QUOTE_NONE") for x in walk(q)) else None, e.where(), "quoted values are read as one value", "quoting")
    bad = kw.get("on_bad_lines")
    ctx.decide(True if bad is None else False if is_const(bad) and cval(bad) in ("skip", "warn") else None, e.where(), "no line is skipped", "bad-lines")
    df0 = e.res
    # names of the columns: the header of the file
    cols = [x for x in r.events if x.kind == "setattr" and x.name == "columns" and x.base is df0]
    hd = kw.get("header")
    rl = [x for x in r.calls(".readline")]
    if cols:
        c = cols[0]
        ok = is_call(c.value, ".split") and any(contains(c.value, x.res) for x in rl)
        if ok:
            v, why = value(c.value, {rl[0].res: sep.join(names) + "\n"})
            if why is None:
                ctx.decide(v == names, c.where(), f"columns have the names in the header of the log ({v if v != names else 'same'})", "header")
            else:
                ctx.decide(False if why[0] == "error" else None, c.where(), "names of columns", "header")
        else:
            ctx.unk(c.where(), "names of columns", "header")
        ctx.decide(True if hd is NONE else False if hd is None or is_const(hd) else None, e.where(), "the first line read is an evaluation", "first")
    else:
        ctx.unk(e.where(), "names of columns", "header")
    # renamed columns
    rn = [x for x in r.calls(".rename") if x.base is df0]
    ren, df = {}, df0
    for x in rn:
        a = x.kw("columns", 9)
        m = r.ex(a, x) if a is not None else None
        if m is None or m.op != "dict" or not all(p.op == "seg_pair" and is_const(p.args[0]) and is_const(p.args[1]) for p in m.args[0]):
            ctx.unk(x.where(), "renamed columns", "rename")
            return
        ren = {cval(p.args[0]): cval(p.args[1]) for p in m.args[0]}
        df = x.res
        for k in ren:
            ctx.decide(k in names, x.where(), f"the log has a column {k!r}", "rename")
    final = [ren.get(n, n) for n in names]
    back = {v: k for k, v in ren.items()}

    def column(t):
        """Name in the log of the column a term denotes."""
        if t.op == "attr" and t.args[0] in (df, df0) and isinstance(t.args[1], str):
            return back.get(t.args[1], t.args[1]) if t.args[0] is df else t.args[1]
        if t.op == "item" and t.args[0] in (df, df0) and is_const(t.args[1]):
            return back.get(cval(t.args[1]), cval(t.args[1]))
        return None
    for x in r.calls("pandas.to_datetime"):
        n = column(x.args[0]) if x.args else None
        ctx.decide(None if n is None else n == "t_start", x.where(), f"start times are read from the column with start times ({n})", "start")
        f = x.kw("format", 5)
        ctx.decide(None if tf is None or f is not None and not is_const(f) else True if f is not None and cval(f) == tf else None if f is None or f is NONE else False, x.where(), f"times are read as they were written ({tf})", "time-format")
        st = [y for y in r.events if y.kind in ("setattr", "setitem") and y.value is x.res and y.base is df]
        for y in st:
            nm = y.name if not isinstance(y.name, Term) else cval(y.name) if is_const(y.name) else None
            ctx.decide(None if nm is None else nm == "start", y.where(), "start times are stored as such", "start-stored")
    for x in r.calls("pandas.to_timedelta"):
        n = column(x.args[0]) if x.args else None
        ctx.decide(None if n is None else n == "t_wallclock", x.where(), f"durations are read from the wall clock times ({n})", "duration")
        u = x.kw("unit", 1)
        ctx.decide(None if u is not None and not is_const(u) else u is not None and cval(u) in ("s", "S", "sec", "second", "seconds"), x.where(), "durations are in seconds", "unit")
    # scores
    for x in r.calls(".apply"):
        n = column(x.base)
        if n is None:
            continue
        ctx.decide(n == "score", x.where(), f"metrics are read from the scores ({n})", "score")
        f = x.args[0] if x.args else None
        if f is None or f.op not in ("fn", "partial"):
            ctx.unk(x.where(), "how scores are read", "score-value")
            continue
        p = mk("param", "a score")
        for text, want in (("(-0.5, -2)", [-0.5, -2.0]), ("(-0.25,)", [-0.25]), ("(-inf, -3)", [float("-inf"), -3.0]), ("(0.9, -0.3, -1)", [0.9, -0.3, -1.0])):
            vv = fresh(r, f, p)
            res, why = value(vv, {p: text})
            if why:
                ctx.decide(False if why[0] == "error" else None, x.where(), f"scores {text} are read ({why[1]})", "score-value")
            else:
                ctx.decide(list(res) == want, x.where(), f"scores {text} are read as {want} ({list(res)})", "score-value")
        st = [y for y in r.events if y.kind == "setitem" and y.value is x.res]
        for y in st:
            mt = y.name if isinstance(y.name, Term) else None
            ctx.decide(True if mt is mk("attr", ME, "metrics") else None, y.where(), "scores are stored under the metrics of the run, in order", "score-stored")
    # pipelines
    fs = [x for x in r.events if x.kind == "call" and x.callee.endswith("from_string")]
    for x in fs:
        a = x.args[0] if x.args else None
        n = column(a.args[0]) if a is not None and a.op == "elem" else None
        ctx.decide(None if n is None else n == "pipeline", x.where(), f"individuals are read from the pipelines ({n})", "pipeline")
        st = x.kw("strict", 3)
        ctx.decide(True if st is mk("attr", ME, "strict") else False if st is None or is_const(st) else None, x.where(), "individuals are read as strictly as asked for", "strict")
    # every row stays
    fin = attr_at(r, r.returns()[-1], ME, "evaluations") if r.returns() else None
    if fin is not None:
        for lf, _ in leaves(fin):
            t = lf
            chain = []
            while True:
                if t in (df, df0):
                    ctx.ok(fwhere(r), "all rows read are kept", "kept")
                    break
                if is_attr(t, "evaluations", ME):
                    ctx.unk(fwhere(r), "rows kept", "kept")
                    break
                if is_call(t, "pandas.concat"):
                    a = r.ex(t.args[1][0], r.returns()[-1])
                    items = [q.args[0] if q.op == "seg_item" else q for q in a.args[0]] if a.op in ("list", "tuple") else None
                    old = mk("attr", ME, "evaluations")
                    un = {r.ex(y, r.returns()[-1]): y for y in (df, df0)}
                    items = None if items is None else [un.get(y, y) for y in items]
                    ctx.decide(None if items is None else True if items in ([old, df], [old, df0]) else False if df not in items and df0 not in items or old not in items or items in ([df, old], [df0, old]) else None, fwhere(r), "new rows are added after those read before", "kept")
                    break
                if is_call(t, ".dropna", ".drop_duplicates", ".query", ".head", ".tail", ".sample", ".nlargest") or t.op == "item" and not is_const(t.args[1]) or t.op == "slice":
                    ctx.bad(fwhere(r), f"NOT: all rows read are kept ({show_(t)[:60]})", "kept")
                    break
                if is_call(t, ".copy", ".reset_index", ".sort_index", ".rename", ".assign", ".astype"):
                    t = t.args[0].args[0]
                    continue
                ctx.unk(fwhere(r), "rows kept", "kept")
                break
    # progress of metrics
    for x in r.events:
        if x.kind == "setitem" and isinstance(x.name, Term) and x.name.op == "fstr" and any(is_const(y) and "cum" in str(cval(y)) for y in x.name.args[0]):
            el = [y for y in x.name.args[0] if not is_const(y)]
            ok = is_call(x.value, ".cummax") and x.value.args[0].args[0].op == "item" and el and x.value.args[0].args[0].args[1] is el[0]
            ctx.decide(True if ok else False if is_call(x.value, ".cummin", ".cumsum", ".cumprod") else None, x.where(), "the best score so far is reported per metric", "cummax")
        if x.kind == "setitem" and x.name in ("relative_end", const("relative_end")) and x.value.op == "call" and not is_call(x.value, "pandas.Series"):
            b = x.value.args[0].args[0] if x.value.args[0].op == "attr" else None
            tx = show_(x.value)
            ctx.decide(True if is_call(x.value, ".total_seconds") and any(y.op == "bin" and y.args[0] == "+" for y in walk(x.value)) and any(is_attr(y, "duration") for y in walk(x.value)) and any(is_call(y, ".min") for y in walk(x.value)) else False if not any(is_attr(y, "duration") for y in walk(x.value)) and any(is_attr(y, "start") for y in walk(x.value)) else None, x.where(), "the end of an evaluation is given relative to the start of the search", "relative")


def fresh(r, f, p):
    """Result of calling f(p), with its containers expanded."""
    s = r.state.copy()
    v = r.it.call(s, f, [p], (), r.fn.node)
    return r.it.expand(v, s.cont)


@rule("C34", "reading", "only a finished run that is not forced is not read again; reading continues after what was read before")
def reading(ctx):
    r = ctx.run(GR + ".update", self_cls=GR, opaque=("gama.genetic_programming.components.individual.Individual.from_string",))
    force, inc = P(r, "force", 1), mk("attr", ME, "incomplete")
    op = [e for e in r.events if e.kind == "call" and e.callee == "builtins.open"]
    if len(op) != 1:
        ctx.abort("how the log is opened")
        return
    for f in (True, False):
        for i in (True, False):
            g = on(op[0].guards, {force: f, inc: i})
            want = f or i
            ctx.decide(None if g is None else g == want, op[0].where(), f"{'forced' if f else 'not forced'}, {'incomplete' if i else 'complete'}: the log is {'read' if want else 'not read'}", "when")
    a = op[0].kw("file", 0)
    ctx.decide(True if any(is_const(y) and cval(y) == "evaluations.log" for y in walk(a)) and is_attr_in(a, "_log_directory") else None, op[0].where(), "the evaluation log of the run is read", "file")
    sk, tl, rl, rc = r.calls(".seek"), r.calls(".tell"), r.calls(".readline"), r.calls("pandas.read_csv")
    last = mk("attr", ME, "_last_tell")
    if sk and rl and rc:
        a = sk[0].args[0]
        ctx.decide(True if contains(a, last) and any(contains(a, t.res) for t in tl) and a.op in ("max2", "max", "pure", "call", "ite") else False if is_const(a) or a is last else None, sk[0].where(), "reading starts after the header, and after what was read before", "seek")
        ctx.decide(rl[0].seq < sk[0].seq < rc[0].seq, sk[0].where(), "the position is set between header and evaluations", "seek-order")
    elif rc:
        ctx.unk(rc[0].where(), "where reading starts", "seek")
    end = [e for e in r.events if e.kind == "setattr" and e.name == "_last_tell" and rc and e.seq > rc[0].seq]
    if rc and sk:
        off = [arith.const_diff(end[-1].value, t.res) for t in tl if t.seq > rc[0].seq] if end else []
        ctx.decide(True if end and any(end[-1].value is t.res and t.seq > rc[0].seq for t in tl) else False if not end or is_const(end[-1].value) or any(d for d in off) else None, fwhere(r), "the position after reading is remembered", "remember")
    up = [e for e in r.events if e.kind in ("call", "mutate") and (e.callee == ".update" or e.name == "update") and e.base is mk("attr", ME, "individuals")]
    for e in r.events:
        if e.kind == "setitem" and (e.name is const("n") or e.name == "n"):
            p = arith.poly(e.value)
            top = [k for k in p if k and contains(mk("tuple", tuple(k)), lambda z: is_call(z, ".max") and contains(z, lambda y: is_attr(y, "evaluations")))]
            plain = top and all(len(k) == 1 and p[k] == 1 for k in p if k) and len([k for k in p if k]) == 2
            if plain:
                ctx.decide(p.get((), 0) >= 1, e.where(), "evaluations read later are numbered after all of those read before", "numbers", f"plus {p.get((), 0)}")
    st = [e for e in r.events if e.kind == "setattr" and e.name == "individuals"]
    ctx.decide(True if up and not st else None, fwhere(r), "individuals read before are kept", "individuals")
    for e in r.returns():
        g = on(e.guards, {force: False, inc: False})
        if g and e.value is TRUE:
            ctx.bad(e.where(), "NOT: True is returned only when new evaluations were read", "result")


@rule("C34", "successful", "successful evaluations are those with a finite score for every metric")
def successful(ctx):
    r = ctx.run(GR + ".successful_evaluations", self_cls=GR)
    EVs, MET = mk("attr", ME, "evaluations"), mk("attr", ME, "metrics")
    opt = [e for e in r.calls("pandas.option_context")]
    inf = any(e.args and e.args[0] is const("mode.use_inf_as_na") and e.args[1] is TRUE for e in opt)
    for e in r.returns():
        t = e.value
        if t.op != "item" or t.args[0] is not EVs:
            ctx.unk(e.where(), "which evaluations are successful", "which")
            continue
        c, neg_ = t.args[1], False
        while c.op == "un" and c.args[0] in ("Invert", "~"):
            c, neg_ = c.args[1], not neg_
        m = "any" if is_call(c, ".any") else "all" if is_call(c, ".all") else None
        if m is None:
            ctx.unk(e.where(), "which evaluations are successful", "which")
            continue
        ax = dict(c.args[2]).get("axis") or (c.args[1][0] if c.args[1] else None)
        ctx.decide(True if ax is not None and is_const(ax) and cval(ax) in (1, "columns") else False if ax is None or is_const(ax) else None, e.where(), "each evaluation is considered by itself", "axis")
        b = c.args[0].args[0]
        if is_call(b, ".isna", ".isnull", ".notna", ".notnull"):
            pos = is_call(b, ".notna", ".notnull")
            want = (m, neg_, pos) in (("any", True, False), ("all", False, True))
            ctx.decide(want, e.where(), "evaluations with a missing score for any metric are left out, no others", "which")
            ctx.decide(inf or None if not opt else inf, e.where(), "infinite scores are those of failed evaluations", "infinite")
            col = b.args[0].args[0]
            ctx.decide(True if col is mk("item", EVs, MET) else None, e.where(), "all metrics are considered", "metrics")
        elif is_call(b, "numpy.isfinite"):
            ctx.decide((m, neg_) == ("all", False), e.where(), "evaluations with a missing score for any metric are left out, no others", "which")
        else:
            ctx.unk(e.where(), "which evaluations are successful", "which")
