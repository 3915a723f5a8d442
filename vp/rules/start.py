"""The search phase: start candidates, data, metrics, result (C36)."""
from __future__ import annotations

from vp.check import rule
from vp.conc import Broken, CantFold as Unknown, conc
from vp.rules.metric import fwd, has_method, order, SUB
from vp.rules.util import *  # noqa: F401,F403
from vp.rules.util import P

G = "gama.gama.Gama."
ME = mk("param", "self")
SK = "gama.genetic_programming.compilers.scikitlearn."


def phase(ctx):
    r = ctx.run(G + "_search_phase", opaque=("gama.genetic_programming.operator_set.OperatorSet.individual",))
    s = [e for e in r.events if e.kind == "call" and e.callee == ".search"]
    if not s:
        ctx.abort("search not found")
    return r, s


# (what, warm start given: None / empty / candidates, result of an earlier fit, wanted)
CASES = (("candidates are given", "some", False, "given"), ("candidates are given and there was an earlier fit", "some", True, "given"),
         ("nothing is given, after an earlier fit", None, True, "earlier"), ("nothing is given, first fit", None, False, "new"),
         ("an empty list is given", "empty", False, "new"), ("an empty list is given, after an earlier fit", "empty", True, "new"))


@rule("C36", "start", "the search starts from the candidates given, else from the result of the earlier fit, else from new random pipelines")
def c36_start(ctx):
    r, ss = phase(ctx)
    ws = P(r, "warm_start", 1)
    pop = mk("attr", ME, "_final_pop")
    for e in ss:
        a = dict(e.kwargs).get("start_candidates") or (e.args[1] if len(e.args) > 1 else None)
        if a is None:
            ctx.bad(e.where(), "NOT: the search gets start candidates", "given")
            continue
        for what, w, earlier, want in CASES:
            ok, why, n = True, "", 0
            for t, facts in leaves(a):
                c = [applies(f, ws, w, pop, earlier) for f in facts]
                if False in c:
                    continue
                k = kind(r, e, t, ws, pop)
                n += 1
                if None in c or k is None:
                    ok = None
                elif k != want:
                    ok, why = False, f"starts from {k}"
                    break
            ctx.decide(ok if n else None, e.where(), f"{what}: the search starts from {dict(given='exactly these', earlier='its result', new='new random pipelines')[want]}", f"start:{w}:{earlier}", why)


def applies(f, ws, w, pop, earlier):
    env = {}
    for x in walk(f):
        if x is ws:
            env[x] = None if w is None else [] if w == "empty" else ["candidate"]
        elif x is pop:
            env[x] = ["found"] if earlier else []
        elif x.op == "len" and x.args[0] is pop:
            env[x] = 3 if earlier else 0
        elif x.op == "len" and x.args[0] is ws and w is not None:
            env[x] = 0 if w == "empty" else 3
        elif x.op in ("all", "any") and contains(x, lambda y: y.op == "isinstance"):
            env[x] = True if x.op == "all" else not contains(x, lambda y: y.op == "not") if w == "some" else False
        elif x.op == "isinstance" and x.args[0] is ws:
            env[x] = w is not None
    try:
        return bool(conc(f, env))
    except (Unknown, Broken):
        return None


def kind(r, e, t, ws, pop):
    t = r.ex(t, e)
    n = 0
    while n < 5:
        n += 1
        if t.op in ("list", "tuple") and len(t.args[0]) == 1 and t.args[0][0].op == "seg_splice":
            t = t.args[0][0].args[0]
        elif t.op in ("list", "tuple") and len(t.args[0]) == 1 and t.args[0][0].op == "seg_each":
            lid, base, g, el = t.args[0][0].args
            if contains(el, lambda y: is_call(y, ".individual", "OperatorSet.individual") or (y.op == "obj" and "Individual" in str(y.args[0]))):
                return "new" if not g else None
            if el.op == "elem" and not g:
                t = base
            elif el.op == "elem" and g and all(not vague(x) for x in g):
                return "a part of the candidates"
            else:
                return None
        elif t.op == "copy" or is_call(t, ".copy", "copy.copy", "copy.deepcopy"):
            t = t.args[0].args[0] if t.op == "call" and t.args[0].op == "attr" else t.args[0] if t.op == "copy" else t.args[1][0]
        else:
            break
    if t.op in ("list", "tuple") and not t.args[0]:
        return "nothing"
    if t is ws:
        return "given"
    if t is pop:
        return "earlier"
    if t.op == "slice" and t.args[0] in (ws, pop):
        return "a part of the candidates"
    return None


@rule("C36", "candidates-only", "anything but pipelines as start candidates is refused before the search")
def c36_types(ctx):
    r, ss = phase(ctx)
    ws = P(r, "warm_start", 1)
    rs = [e for e in r.events if e.kind == "raise" and e.seq < ss[0].seq and any(contains(g, lambda y: y.op == "isinstance" and contains(y.args[0], lambda z: z is ws)) for g in e.guards)]
    ctx.decide(True if rs else None if any(contains(g, lambda y: y.op == "isinstance") for e in r.events for g in e.guards) else False, rs[0].where() if rs else fwhere(r), "something that is no pipeline is refused", "refused")
    for e in rs:
        for cand in ((True,), (True, True), (False,), (True, False), (False, True), (False, False)):
            vs = [quant(g, cand, ws) for g in e.guards]
            v = False if False in vs else None if None in vs else True
            ctx.decide(None if v is None else v is not all(cand), e.where(), ("pipelines are accepted" if all(cand) else "a list with something else is refused"), "refused:" + "".join("ny"[c] for c in cand))


def quant(g, cand, ws):
    """A condition on start candidates of which `cand` tells whether they are pipelines."""
    if g is ws:
        return True
    if g.op == "not":
        v = quant(g.args[0], cand, ws)
        return None if v is None else not v
    if g.op in ("and", "or"):
        vs = [quant(x, cand, ws) for x in g.args[0]]
        stop = g.op == "or"
        return stop if stop in vs else None if None in vs else not stop
    if g.op in ("any", "all"):
        c = g.args[0]
        if c.op in ("list", "tuple", "gen") and len(c.args[0]) == 1 and c.args[0][0].op == "seg_each" and not c.args[0][0].args[2] and c.args[0][0].args[1] is ws:
            el = c.args[0][0].args[3]
            pos = el.op == "isinstance"
            if pos or (el.op == "not" and el.args[0].op == "isinstance"):
                return (any if g.op == "any" else all)(x is pos for x in cand)
    return None


@rule("C36", "judged-on", "candidates are evaluated on this fit's data and target, by the configured metrics and length setting")
def c36_data(ctx):
    r, ss = phase(ctx)
    want = {"x": "_x", "y_train": "_y", "metrics": "_metrics"}
    n = 0
    for e in r.events:
        for t in [e.value] if e.kind in ("setattr", "setitem") else []:
            v = r.ex(t, e)
            for x in walk(v):
                if x.op == "partial" and x.args[0].op == "fn" and x.args[0].args[0] in (SK + "evaluate_pipeline", SK + "evaluate_individual"):
                    kw = dict(x.args[2])
                    ev = x.args[0].args[0].endswith("evaluate_individual")
                    n += 1
                    for k, at in ({"add_length_to_score": "_regularize_length"} if ev else want).items():
                        got = kw.get(k)
                        full_ = mk("attr", ME, at)
                        if got is None:
                            ctx.decide(None if x.args[1] or "**" in kw else False, e.where(), f"{k} of an evaluation is given", "given:" + k)
                            continue
                        ctx.decide(True if got is full_ else False if is_const(got) or (got.op == "attr" and got.args[0] is ME and got.args[1] in ("_x", "_y")) or got.op in ("slice", "un", "not") else None, e.where(), f"{k} of an evaluation is that of the fit", k, show_(got))
                    ctx.decide(e.seq < ss[0].seq, e.where(), "it is set before the search", "before")
    if not n:
        ctx.unk(fwhere(r), "evaluation not found", "given")
    for e in ss:
        ctx.decide(True if is_attr(e.base, "_search_method") else None, e.where(), "the configured search method searches", "method")
        ops = dict(e.kwargs).get("operations") or (e.args[0] if e.args else None)
        ctx.decide(True if ops is mk("attr", ME, "_operator_set") else None, e.where(), "with the operators of this instance", "operators")


@rule("C36", "result", "what the search method found is the result, also after an interrupt, and is given to post-processing with the same data")
def c36_result(ctx):
    r, ss = phase(ctx)
    st = [e for e in r.events if e.kind == "setattr" and e.name == "_final_pop" and e.base is ME]
    out = mk("attr", mk("attr", ME, "_search_method"), "output")
    last = st[-1] if st else None
    if last is None:
        ctx.decide(False, fwhere(r), "the result of the search is kept", "kept")
    else:
        v = r.ex(last.value, last)
        for t, _ in leaves(v):
            cp = t.op in ("list", "tuple") and len(t.args[0]) == 1 and t.args[0][0].op == "seg_splice" and t.args[0][0].args[0] is out
            ctx.decide(True if t is out or cp or is_call(t, ".search") else False if is_const(t) or t.op in ("slice",) or (t.op == "param") else None, last.where(), "the result is what the search found", "kept", show_(t))
        ctx.decide(last.seq > ss[-1].seq, last.where(), "it is taken after the search", "after")
        ctx.decide(False if any(any(contains(g, lambda y: y.op == "exc") and g.op != "not" for g in e.guards) for e in st[-1:]) else True, last.where(), "however the search ended", "always")
    r = ctx.run(G + "fit", opaque=(G + "_search_phase", "gama.data_formatting.format_x_y"))
    sp = [e for e in r.events if e.kind == "call" and e.callee == G + "_search_phase"]
    for e in sp:
        a = e.kw("warm_start", 0)
        w = P(r, "warm_start", 3)
        ctx.decide(True if a is w else False if a is None or is_const(a) else None, e.where(), "start candidates given to fit reach the search", "warm-start", show_(a) if a is not None else "not given")
    for e in [e for e in r.events if e.kind == "call" and e.callee == ".post_process"]:
        for k, pos, at in (("x", 0, "_x"), ("y", 1, "_y")):
            v = e.kw(k, pos)
            cur = e.heap.get((ME, at))
            ctx.decide(True if v is cur or v is mk("attr", ME, at) else None if v is None or vague(v) or cur is None else (False if v.op == "param" else None), e.where(), f"post-processing gets the same {k} as the search", "post:" + k, show_(v))
        sel = e.kw("selection", 3)
        o = order(r, e, sel) if sel is not None else None
        ctx.decide(True if o and is_attr(o[0], "_final_pop") else None, e.where(), "post-processing gets all that was found", "post:selection")
        ctx.decide(bool(sp) and e.seq > sp[-1].seq, e.where(), "post-processing follows the search", "post:after")


@rule("C36", "fit-arguments", "start candidates given to any form of fit reach the search")
def fit_args(ctx):
    for cls, task in SUB:
        if not has_method(ctx, cls, "fit"):
            continue
        r = ctx.run(cls + ".fit", self_cls=cls, opaque=(G + "fit", "gama.data_formatting.format_x_y"))
        up = [e for e in r.events if e.kind == "call" and e.callee == G + "fit"]
        if len(up) != 1:
            ctx.decide(False if not up else None, fwhere(r), f"{task}: the common fit is called", "called:" + task)
            continue
        fwd(ctx, r, up[0], task)
    r = ctx.run(G + "fit_from_file", opaque=(G + "fit", "gama.data_loading.X_y_from_file"))
    for e in [e for e in r.events if e.kind == "call" and (e.callee == G + "fit" or e.callee == ".fit")]:
        a = e.kw("warm_start", 2)
        w = P(r, "warm_start", 4)
        ctx.decide(True if a is w else False if a is None or is_const(a) else None, e.where(), "start candidates given with a file reach the search", "file", show_(a) if a is not None else "not given")


BIG = {"KNeighborsClassifier": "prediction", "KNeighborsRegressor": "prediction", "PolynomialFeatures": "data"}


@rule("C36", "left-out", "algorithms are left out only for data too large for them: nearest neighbours beyond 6 million values, polynomial features beyond 50 columns, and only if models are stored")
def c36_left(ctx):
    r = ctx.run(G + "fit", opaque=(G + "_search_phase", "gama.data_formatting.format_x_y", "gama.data_loading.X_y_from_file"))
    sp = [e for e in r.events if e.kind == "call" and e.callee == G + "_search_phase"]
    es = [e for e in r.events if e.kind == "setitem" and contains(e.base, lambda y: is_attr(y, "_pset"))]
    seen = set()
    for e in es:
        key = cval(e.name) if is_const(e.name) else None
        v = r.ex(e.value, e)
        if v.op not in ("list", "tuple") or len(v.args[0]) != 1 or v.args[0][0].op != "seg_each" or key not in ("prediction", "data"):
            ctx.unk(e.where(), "which algorithms are left out", "which")
            continue
        lid, base, g, el = v.args[0][0].args
        src = mk("item", e.base, e.name)
        ctx.decide(True if el.op == "elem" and (base is src or contains(base, lambda y: is_attr(y, "_pset"))) else None, e.where(), "the others stay", "stay:" + key)
        ctx.decide(bool(sp) and e.seq < sp[0].seq, e.where(), "before the search", "before:" + key)
        ident = [y for x in g for y in walk(x) if is_attr(y, "identifier")]
        for name in sorted(BIG) + ["Other"]:
            cv = left(band(list(g)), ident, name)
            want = BIG.get(name) == key
            if name != "Other" and BIG[name] != key:
                continue
            ctx.decide(None if cv is None else cv is not want, e.where(), f"{name} is {'left out' if want else 'kept'}", f"which:{key}:{name}")
            if cv is False:
                seen.add(name)
        n = ncols_rows(e.guards)
        for m in (None, 0, 1, 200):
            for rows, cols in ((6_000_000, 1), (6_000_001, 1), (120_000, 50), (120_001, 50), (100, 51), (100, 50), (117_648, 51), (10, 10)):
                big = rows * cols > 6_000_000 if key == "prediction" else cols > 50
                want = big and (m is None or m > 0)
                vs = [cond(x, rows, cols, m) for x in e.guards if not sp or x not in sp[0].guards]
                got = False if False in vs else None if None in vs else True
                ctx.decide(None if got is None else got is want, e.where(), f"{rows} rows, {cols} columns, {m} models stored: {'left out' if want else 'kept'}", f"when:{key}:{m}:{rows}:{cols}")
    if not es:
        ctx.unk(fwhere(r), "which algorithms are left out", "which")


def left(g, ident, name):
    """The condition to be kept, for an algorithm of this name."""
    def go(x):
        if x.op == "not":
            v = go(x.args[0])
            return None if v is None else not v
        if x.op in ("and", "or"):
            vs = [go(y) for y in x.args[0]]
            stop = x.op == "or"
            return stop if stop in vs else None if None in vs else not stop
        if x.op == "cmp" and x.args[0] in ("==", "is") and x.args[2] in ident and x.args[1].op == "ext":
            return x.args[1].args[0].rsplit(".", 1)[-1] == name
        if x.op == "cmp" and x.args[0] in ("in", "==", "is") and x.args[1] in ident:
            el = x.args[2].args[0] if x.args[0] == "in" and x.args[2].op in ("list", "tuple", "set") else (x.args[2],)
            el = [y.args[0] if y.op == "seg_item" else y for y in el]
            if all(y.op == "ext" for y in el):
                return any(y.args[0].rsplit(".", 1)[-1] == name for y in el)
        if is_const(x):
            return bool(cval(x))
        return None
    return go(g)


def ncols_rows(guards):
    return [x for g in guards for x in walk(g) if is_attr(x, "shape")]


def cond(g, rows, cols, m):
    env = {}
    for x in walk(g):
        if x.op == "item" and is_attr(x.args[0], "shape") and is_const(x.args[1]):
            env[x] = (rows, cols)[cval(x.args[1])]
        elif is_attr(x, "_m"):
            env[x] = m
        elif is_attr(x, "size"):
            env[x] = rows * cols
        elif x.op == "len" and is_attr(x.args[0], "columns"):
            env[x] = cols
        elif x.op == "len" and x.args[0].op in ("call", "item"):
            env[x] = rows
    try:
        return bool(conc(g, env))
    except (Unknown, Broken):
        return None


@rule("C36", "kept-at-timeout", "what a search found before it was stopped is its result: it is collected in the list that is the output, or the stop is caught and the result returned")
def c36_timeout(ctx):
    base = ctx.p.cls("gama.search_methods.base_search.BaseSearch")
    AE = "gama.utilities.generic.async_evaluator.AsyncEvaluator."
    OS = "gama.genetic_programming.operator_set.OperatorSet."
    for c in ctx.p.all_classes():
        if c is base or base not in ctx.p.mro(c):
            continue
        f, nm = ctx.p.find_method(c, "search"), c.qual.rsplit(".", 1)[-1]
        if f is None:
            continue
        r = ctx.run(f.qual, self_cls=c.qual, opaque=(OS + "wait_next", OS + "individual", AE + "__init__", AE + "__enter__", AE + "__exit__", AE + "submit", AE + "wait_next"))
        waits = [e for e in r.events if e.kind == "call" and e.callee.endswith("wait_next")]
        if not waits:
            ctx.unk(f.qual, "results not found", "kept:" + nm)
            continue
        found = lambda t: contains(t, lambda y: is_attr(y, "individual") and contains(y, lambda z: is_attr(z, "result")))
        sinks = [e for e in r.events if e.kind in ("call", "mutate") and (e.callee if e.kind == "call" else "." + str(e.name)) in (".append", ".insert", ".add", ".extend") and any(found(x) for x in e.args)]
        if not sinks:
            ctx.unk(f.qual, "where results are collected is not found", "kept:" + nm)
            continue
        outs = [e.value for e in r.events if e.kind == "setattr" and e.name == "output" and e.base is ME and e.seq < waits[0].seq]
        cur = outs[-1] if outs else mk("attr", ME, "output")
        direct = [e for e in sinks if e.base is cur]
        tries = [x[1] for x in waits[0].ctx if x[0] == "try"]
        caught = [e for e in r.events if any(x[0] == "handler" and x[1] in tries for x in e.ctx)]
        passed = [e for e in caught if e.kind == "raise"]
        late = [e for e in r.events if e.kind == "setattr" and e.name == "output" and e.base is ME and e.seq > waits[0].seq]
        if direct:
            ctx.decide(True, direct[0].where(), f"{nm}: results are collected in the output", "kept:" + nm)
        elif caught and not passed and late:
            ctx.decide(True, caught[0].where(), f"{nm}: when the search is stopped its results so far are the output", "kept:" + nm)
        else:
            local = lambda b: b.op in ("listobj", "dictobj", "obj", "list") or (b.op == "item" and local(b.args[0]))
            own = all(local(e.base) for e in sinks) and not (tries and not passed)
            ctx.decide(False if own else None, sinks[0].where(), f"{nm}: what was found before the search is stopped is kept", "kept:" + nm, show_(sinks[0].base))
        for e in late:
            v = r.ex(e.value, e)
            ctx.decide(False if is_const(v) else True, e.where(), f"{nm}: the output is what was found", "output:" + nm, show_(v))


METHODS = (("gama.search_methods.async_ea.AsyncEA", "gama.search_methods.async_ea.async_ea"), ("gama.search_methods.random_search.RandomSearch", "gama.search_methods.random_search.random_search"),
           ("gama.search_methods.asha.AsynchronousSuccessiveHalving", "gama.search_methods.asha.asha"))


def plain(r, e, t):
    """The list t is a copy of, or None."""
    t = r.ex(t, e)
    for _ in range(4):
        if t.op in ("list", "tuple") and len(t.args[0]) == 1 and t.args[0][0].op == "seg_splice":
            t = t.args[0][0].args[0]
        elif t.op in ("list", "tuple") and len(t.args[0]) == 1 and t.args[0][0].op == "seg_each" and t.args[0][0].args[3].op == "elem" and not t.args[0][0].args[2]:
            t = t.args[0][0].args[1]
        elif t.op == "copy":
            t = t.args[0]
        elif is_call(t, ".copy") and t.args[0].op == "attr":
            t = t.args[0].args[0]
        else:
            break
    return t


@rule("C36", "handed-on", "each search method hands the start candidates it is given to its procedure, all of them")
def c36_handed(ctx):
    for cls, fn in METHODS:
        c = ctx.p.cls(cls)
        if c is None or ctx.p.func(fn) is None:
            ctx.unk(cls, "search method not found")
            continue
        r = ctx.run(cls + ".search", opaque=(fn,))
        sc = mk("param", "start_candidates")
        calls = [e for e in r.events if e.kind == "call" and e.callee.split(".")[-1] == fn.split(".")[-1]]
        if not calls:
            ctx.unk(cls, "call of the search procedure not found")
        names = [a.arg for a in ctx.p.func(fn).node.args.args]
        for e in calls:
            i = names.index("start_candidates") if "start_candidates" in names else None
            a = dict(e.kwargs).get("start_candidates") or (e.args[i] if i is not None and len(e.args) > i else None)
            if a is None:
                ctx.decide(None if any(k in ("**", None) for k, _ in e.kwargs) and "start_candidates" not in names else False, e.where(), f"{cls.split('.')[-1]} gets the start candidates", "handed")
                continue
            p = plain(r, e, a)
            bad = p.op in ("slice", "const") or p.op in ("list", "tuple") and not contains(p, lambda x: x is sc) or p.op == "list" and p.args[0] and p.args[0][0].op == "seg_each" and contains(p, lambda x: x is sc) and p.args[0][0].args[2] and not vague(p)
            ctx.decide(True if p is sc else (False if bad else None), e.where(), f"{cls.split('.')[-1]} gets the start candidates", "handed", show_(p))


@rule("C36", "first", "successive halving evaluates the start candidates before it makes new ones")
def c36_asha(ctx):
    from vp.rules.search import AS as ASHA, srun, submits
    r = srun(ctx, ASHA)
    sc = P(r, "start_candidates", 1)
    n = 0
    for e in submits(r):
        for a in e.args:
            t = r.ex(a, e)
            for x in walk(t):
                if x.op != "ite" or not contains(x.args[0], lambda y: y is sc):
                    continue
                new = [b for b in x.args[1:] if is_call(b, "OperatorSet.individual")]
                take = [b for b in x.args[1:] if contains(b, lambda y: y is sc) and not is_call(b, "OperatorSet.individual")]
                if not new or not take:
                    continue
                n += 1
                empty = x.args[1] is new[0]
                try:
                    g = {y: [] for y in walk(x.args[0]) if y is sc}
                    has = {y: ["a"] for y in walk(x.args[0]) if y is sc}
                    for env, want in ((g, empty), (has, not empty)):
                        for y in walk(x.args[0]):
                            if y.op == "len" and y.args[0] is sc:
                                env[y] = len(env[sc])
                    ok = bool(conc(x.args[0], g)) == empty and bool(conc(x.args[0], has)) == (not empty)
                except (Unknown, Broken):
                    rest = [y for y in flat_and(x.args[0]) if not contains(y, lambda z: z is sc)]
                    ok = False if rest and not any(vague(y) for y in rest) else None
                ctx.decide(ok, e.where(), "new pipelines are made only when no start candidate is left", "first", show_(x.args[0]))
    if not n:
        ctx.unk(ASHA, "choice between start candidates and new ones not found", "first")


def flat_and(t):
    if t.op == "and":
        vs = t.args[0] if len(t.args) == 1 and isinstance(t.args[0], (tuple, list)) else t.args
        return [y for x in vs for y in flat_and(x)]
    return [t]
