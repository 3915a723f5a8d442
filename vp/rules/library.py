"""The evaluation library: the best models are kept, all evaluations are remembered (C19), sampled rows (C10)."""
from __future__ import annotations

from vp.check import rule
from vp.rules.util import *  # noqa: F401,F403
from vp.rules.util import P

MOD = "gama.utilities.evaluation_library"
LIB = MOD + ".EvaluationLibrary"
EV = MOD + ".Evaluation"
ME = mk("param", "self")
TOP = mk("attr", ME, "top_evaluations")
OTHER = mk("attr", ME, "other_evaluations")
LOOKUP = mk("attr", ME, "lookup")
NEW, OLD = 5, 3


def meth(e):
    return e.callee.rsplit(".", 1)[-1]


def stored(ctx, param):
    """The attribute the constructor keeps a parameter in (as is, or through one call)."""
    r = ctx.run(LIB + ".__init__")
    p = P(r, param)
    hits = {e.name for e in r.events if e.kind == "setattr" and e.base is ME and
            (e.value is p or (is_call(e.value, "expandvars", "expanduser", "abspath", "fspath", "Path") and e.value.args[1] == (p,)))}
    direct = {e.name for e in r.events if e.kind == "setattr" and e.base is ME and e.value is p and not e.guards} or hits
    if len(direct) != 1:
        ctx.abort(f"where the library keeps `{param}` was not found")
    return mk("attr", ME, direct.pop())


def save_run(ctx):
    opq = [q for q in (LIB + "._process_predictions", EV + ".to_disk", EV + ".remove_from_disk") if ctx.has(q)]
    if len(opq) < 3:
        ctx.abort("the steps of storing an evaluation were not recognised")
    return ctx.run(LIB + ".save_evaluation", opaque=tuple(opq))


def situations(M, ev, removed):
    """(name, is the evaluation a failure, kept?, another one dropped?, env)"""
    def env(err, m, n, new, rem, s_new=None, s_old=None):
        s_new, s_old = s_new or (float(new), -2), s_old or (float(OLD), -2)
        d = {ev: new, mk("attr", ev, "error"): err, M: m, TOP: [OLD] * n, mk("len", TOP): n, mk("attr", ev, "score"): s_new}
        d[mk("attr", mk("item", TOP, const(0)), "score")] = s_old
        # failed and dropped evaluations of earlier
        d[OTHER] = [OLD - 2] * 4
        d[mk("len", OTHER)] = 4
        d[mk("attr", ME, "evaluations")] = [OLD] * n + [OLD - 2] * 4
        d[mk("len", mk("attr", ME, "evaluations"))] = n + 4
        for x in removed:
            d[x] = rem
            d[mk("attr", x, "score")] = s_old if rem != new else s_new
            d[mk("attr", x, "error")] = None if rem != new else err
        return d
    yield "failed evaluation, room left", True, False, False, env("<class 'ValueError'> x", 5, 3, NEW, NEW)
    yield "failed evaluation, the first", True, False, False, env("<class 'ValueError'> x", 5, 0, NEW, NEW)
    yield "failed evaluation, nothing is to be kept", True, False, False, env("<class 'ValueError'> x", 0, 0, NEW, NEW)
    yield "failed evaluation, library full", True, False, False, env("<class 'ValueError'> x", 3, 3, NEW, NEW)
    yield "failed evaluation, no limit", True, False, False, env("<class 'ValueError'> x", None, 3, NEW, NEW)
    yield "evaluation, no limit", False, True, False, env(None, None, 3, NEW, OLD)
    yield "first evaluation", False, True, False, env(None, 1, 0, NEW, OLD)
    yield "evaluation, one place left", False, True, False, env(None, 4, 3, NEW, OLD)
    yield "better evaluation, library full", False, True, True, env(None, 3, 3, NEW, OLD)
    yield "evaluation that is better on a later metric only, library full", False, True, True, env(None, 3, 3, NEW, OLD, (0.5, -1), (0.5, -2))
    yield "evaluation that is better on the main metric only, library full", False, True, True, env(None, 3, 3, NEW, OLD, (0.7, -3), (0.5, -2))
    yield "worse evaluation, library full", False, False, False, env(None, 3, 3, OLD - 1, OLD - 1)
    yield "evaluation, nothing is to be kept", False, False, False, env(None, 0, 0, NEW, NEW)


@rule("C19|C13", "library-save", "EvaluationLibrary.save_evaluation: in each situation (failure; room left; full and better; full and worse; no limit) exactly the best m successful evaluations stay in the heap and on disk, every other is moved to the rest without model and predictions, and all are in the lookup")
def library_save(ctx):
    r = save_run(ctx)
    ev = P(r, "evaluation", 0)
    M = stored(ctx, "m")
    where = fwhere(r)
    pops = [e for e in r.events if e.kind == "call" and e.callee in ("heapq.heappushpop", "heapq.heapreplace", "heapq.heappop")]
    for name, failed, kept, dropped, env in situations(M, ev, [e.res for e in pops]):
        evs = [(e, on(e.guards, env)) for e in r.events]
        if any(v is None and e.kind in ("call", "setattr", "setitem", "mutate", "aug", "setslice", "delitem") and
               (e.kind != "call" or e.callee.startswith("heapq.") or meth(e) in ("append", "to_disk", "remove_from_disk", "insert", "extend", "remove", "pop"))
               for e, v in evs):
            ctx.unk(where, f"{name}: which steps are taken is not decided")
            continue
        act = [e for e, v in evs if v is not False]
        alias = {x for x in env if isinstance(env[x], int) and env[x] == env[ev] and (x is ev or x in [p.res for p in pops])}
        old = {p.res for p in pops} - alias
        heap = [e for e in act if e.kind == "call" and e.callee.startswith("heapq.") and e.args and e.args[0] is TOP]
        odd = [e for e in act if (e.kind in ("mutate", "aug", "setslice", "delitem", "setitem") and e.base in (TOP, OTHER)) or
               (e.kind == "call" and e.base in (TOP, OTHER) and meth(e) != "append") or
               (e.kind == "call" and e.base is TOP) or (e.kind == "setattr" and e.base is ME and e.name in ("top_evaluations", "other_evaluations"))]
        if odd:
            ctx.unk(odd[0].where(), f"{name}: another way to update the collections")
            continue
        push = [e for e in heap if e.callee.endswith("heappush")]
        swap = [e for e in heap if e.callee.endswith("heappushpop") or e.callee.endswith("heapreplace")]
        if any(len(e.args) < 2 or e.args[1] is not ev for e in push + swap) or len(heap) != len(push) + len(swap):
            ctx.unk(where, f"{name}: heap operation not recognised")
            continue
        app = [e for e in act if e.kind == "call" and e.base is OTHER and meth(e) == "append"]
        disk = [e for e in act if e.kind == "call" and meth(e) == "to_disk"]
        rm = [e for e in act if e.kind == "call" and meth(e) == "remove_from_disk"]
        wh = (heap + app + [None])[0]
        wh = wh.where() if wh is not None else where
        # the heap
        if failed:
            ctx.decide(not heap, wh, f"{name}: a failed evaluation is not among the best", "failed-not-best")
        elif kept and not dropped:
            ctx.decide(len(push) == 1 and not swap, wh, f"{name}: it is added to the best evaluations, and none is removed for it", "kept-" + name.split(",")[0])
        else:
            v = len(swap) == 1 and not push if env[M] != 0 else not push and (not swap or swap[0].callee.endswith("heappushpop"))
            if not heap and not kept:
                v = True
            ctx.decide(v, wh, f"{name}: the worst of the best evaluations and the new one makes place", "swap")
        # all are remembered
        n_new = [e for e in app if e.args and e.args[0] in alias]
        n_old = [e for e in app if e.args and e.args[0] in old]
        if any(not e.args or e.args[0] not in alias | old for e in app):
            ctx.unk(where, f"{name}: what is added to the other evaluations was not recognised")
            continue
        if failed or not kept:
            ctx.decide(len(n_new) == 1, wh, f"{name}: it is in the other evaluations, once", "remembered")
        else:
            ctx.decide(not n_new, wh, f"{name}: it is not in the other evaluations too", "once")
            if dropped:
                ctx.decide(len(n_old) == 1, wh, f"{name}: the one that makes place is in the other evaluations, once", "remembered-old")
        look = [e for e in act if e.kind == "setitem" and e.base is LOOKUP]
        ctx.decide(any(e.value in alias for e in look), look[0].where() if look else where, f"{name}: it is in the lookup of completed evaluations", "lookup")
        # models and predictions
        d_new = [e for e in disk if e.base in alias]
        if kept:
            ctx.decide(len(d_new) == 1, (d_new or disk or [wh])[0].where() if (d_new or disk) else wh, f"{name}: its model and predictions are stored", "stored")
            lost = [e for e in rm if e.base in alias]
            ctx.decide(not lost, lost[0].where() if lost else wh, f"{name}: its file is not removed", "not-removed")
            early = [e for e in act if e.kind == "setattr" and e.base in alias and e.name in ("_estimators", "_predictions") and d_new and e.seq < d_new[0].seq]
            ctx.decide(not early, early[0].where() if early else wh, f"{name}: model and predictions are still there when they are stored", "not-cleared-early")
        else:
            ctx.decide(not d_new, d_new[0].where() if d_new else wh, f"{name}: its model is not stored", "not-stored")
            for a in ("_estimators", "_predictions"):
                sets = [e for e in act if e.kind == "setattr" and e.base in alias and e.name == a]
                val = r.ex(sets[-1].value, sets[-1]) if sets else None
                empty = val is not None and (val is NONE or (val.op in ("list", "tuple") and not val.args[0]))
                ctx.decide(True if empty else False if not sets else None if vague(val) else False, sets[-1].where() if sets else wh,
                           f"{name}: its {a[1:]} are dropped", "drop" + a)
        if dropped:
            d_old = [e for e in rm if e.base in old]
            ctx.decide(len(d_old) == 1, d_old[0].where() if d_old else wh, f"{name}: the file of the evaluation that makes place is removed", "remove-old")


@rule("C10|C19", "library-sampled-first", "EvaluationLibrary.save_evaluation: predictions are reduced to the shared sample before an evaluation is stored, on every path")
def sampled_first(ctx):
    r = save_run(ctx)
    ev = P(r, "evaluation", 0)
    pr = [e for e in r.events if e.kind == "call" and e.callee == LIB + "._process_predictions" and e.args and e.args[0] is ev]
    disk = [e for e in r.events if e.kind == "call" and e.callee == EV + ".to_disk" and e.base is ev]
    if not pr or not disk:
        if disk and not [e for e in r.events if e.kind == "call" and e.callee == LIB + "._process_predictions"]:
            ctx.bad(disk[0].where(), "predictions are stored without being reduced to the shared sample")
            return
        ctx.abort("sampling of the predictions not found")
    from vp import logic
    for d in disk:
        before = [e for e in pr if e.seq < d.seq]
        v = True if any(all(g in d.guards for g in e.guards) for e in before) else False if not before else None
        if v is None and any(logic.implies(d.guards, band(e.guards)) is True for e in before):
            v = True
        ctx.decide(v, d.where(), "the predictions are sampled before they are stored")


@rule("C10|C19", "library-sample-applied", "EvaluationLibrary._process_predictions: with a sample exactly the sampled rows are kept, without one all rows, and with a size of 0 none")
def sample_applied(ctx):
    q = LIB + "._process_predictions"
    r = ctx.run(q, opaque=("#" + EV + ".predictions", LIB + ".determine_sample_indices"))
    ev = P(r, "evaluation", 0)
    n = stored(ctx, "n")
    S = mk("attr", ME, "_sample")
    where = fwhere(r)
    preds = {e.res for e in r.events if e.kind == "call" and e.callee == EV + ".predictions"} | {mk("attr", ev, "_predictions")}
    if not [e for e in r.events if e.kind == "setattr" and e.base is ev and e.name == "_predictions"]:
        ctx.abort("how predictions are reduced was not recognised")
    stirred = [e for e in r.events if e.kind == "call" and (e.callee in ("numpy.random.shuffle", "random.shuffle") and e.args and e.args[0] is S or
               e.callee in (".sort", ".shuffle", ".reverse") and (e.base is S or S in e.args))]
    stirred += [e for e in r.events if e.kind in ("setitem", "delitem", "setslice", "mutate") and e.base is S]
    ctx.decide(not stirred, stirred[0].where() if stirred else where, "the sample stays the same for all evaluations", "fixed-sample")
    for name, sn, sv, pv in (("a sample is set", 7, [0, 2], [1, 2, 3]), ("all rows are kept", None, None, [1, 2, 3]), ("all rows are kept, as there are fewer than the limit", 7, None, [1, 2, 3]), ("no predictions are to be kept", 0, None, [1, 2, 3])):
        env = {n: sn, S: sv}
        for x in preds:
            env[x] = None if sn == 0 and x.op == "call" else pv
        evs = [(e, on(e.guards, env)) for e in r.events if e.kind == "setattr" and e.base is ev and e.name == "_predictions"]
        if any(v is None for _, v in evs):
            ctx.unk(where, f"{name}: not decided")
            continue
        act = [e for e, v in evs if v]
        val = act[-1].value if act else None
        if sn == 0:
            ctx.decide(val is NONE, act[-1].where() if act else where, f"{name}: they are dropped", "zero")
        elif sv is None:
            v = val is None or val in preds
            ctx.decide(v if v else None if vague(val) else False, act[-1].where() if act else where, f"{name}: predictions are left as they are", "all")
        else:
            v = val is not None and val.op == "item" and val.args[0] in preds and val.args[1] is S
            ctx.decide(v if v or val is None else None if vague(val) or val.op not in ("item", "slice", "const") and val is not NONE else False,
                       act[-1].where() if act else where, f"{name}: exactly the rows of the sample are kept", "rows")


@rule("C10|C19", "library-sample-drawn", "EvaluationLibrary.determine_sample_indices: the sample consists of distinct positions among the rows, of the requested number, and all rows are used when there are not more than that")
def sample_drawn(ctx):
    q = LIB + ".determine_sample_indices"
    r = ctx.run(q)
    n, size, strat = P(r, "n", 0), P(r, "prediction_size", 1), P(r, "stratify", 2)
    sn = stored(ctx, "n")
    where = fwhere(r)
    S = "_sample"
    for name, a, b, rows, st in (("no number is set", None, None, 9, False), ("more rows than requested", 4, None, 9, False), ("more rows than the library's number", None, 4, 9, False), ("more rows than the library's number, but not than requested", 20, 4, 9, False), ("as many rows as requested", 9, None, 9, False), ("fewer rows than requested", 12, None, 9, False),
                                 ("more labels than requested", 4, None, 9, True), ("more labels than the library's number", None, 4, 9, True), ("as many labels as requested", 9, None, 9, True), ("fewer labels than requested", 12, None, 9, True), ("no number is set, with labels", None, None, 9, True)):
        env = {n: a, sn: b, size: None if st else rows, strat: list(range(rows)) if st else None, TOP: [], mk("len", TOP): 0}
        evs = [(e, on(e.guards, env)) for e in r.events if e.kind in ("setattr", "raise")]
        if any(v is None for e, v in evs if e.kind == "raise" or e.name == S):
            ctx.unk(where, f"{name}: not decided")
            continue
        act = [e for e, v in evs if v]
        rs = [e for e in act if e.kind == "raise"]
        if rs:
            ctx.bad(rs[0].where(), f"{name}: an error is raised", "raises")
            continue
        act = [e for e in act if e.name == S and e.base is ME]
        if not act:
            ctx.bad(where, f"{name}: no sample is set", "not-set")
            continue
        e, val = act[-1], act[-1].value
        want = b if a is None else a
        if want is None or want >= rows:
            ctx.decide(True if val is NONE else None if vague(val) else False, e.where(), f"{name}: all rows are used", "all-rows")
            continue
        if val is NONE:
            ctx.bad(e.where(), f"{name}: all rows are used", "limited")
            continue
        if is_call(val, "random.choice") and not st:
            base, k, rep = (val.args[1] + (None,))[0], kwarg(val, "size", 1), kwarg(val, "replace", 2)
            ok = base is not None and (base is size or (base.op == "range" and base.args[0] in ((size,), (const(0), size))) or is_call(base, "arange") and base.args[1] == (size,))
            ctx.decide(True if ok else None if base is None or vague(base) or base.op == "call" else False, e.where(), f"{name}: positions among all rows are drawn", "rows")
            ctx.decide(rep is not None and foldb(rep, env) is False, e.where(), f"{name}: no row is drawn twice", "distinct")
            try:
                kv = fold(k, env)
            except (CantFold, AttributeError):
                kv = None
            ctx.decide(None if kv is None else kv == want, e.where(), f"{name}: as many as requested", "number")
        elif is_call(val, "random.sample"):
            try:
                kv = fold(kwarg(val, "k", 1), env)
            except (CantFold, AttributeError):
                kv = None
            ctx.decide(None if kv is None else kv == want, e.where(), f"{name}: as many as requested", "number")
        elif val.op == "item" and any(is_call(x, ".split") for x in walk(val)):
            sp = next(x for x in walk(val) if is_call(x, ".split"))
            con = sp.args[0].args[0]
            side = "train_size" if val.args[1] is const(0) else "test_size" if val.args[1] is const(1) else None
            k = kwarg(con, side, {"test_size": 1, "train_size": 2}[side]) if con.op == "call" and side else None
            try:
                kv = fold(k, env) if k is not None else None
            except CantFold:
                kv = None
            ctx.decide(None if con.op != "call" or side is None or (k is not None and kv is None) else kv == want, e.where(), f"{name}: the part of the split that is used has the requested number of rows", "split-number")
            if st:
                lab = kwarg(sp, "y", 1)
                ctx.decide(is_call(con, "StratifiedShuffleSplit") and lab is strat if lab is None or not vague(lab) else None, e.where(), f"{name}: the sample is stratified by the labels", "stratified")
        else:
            ctx.unk(e.where(), f"{name}: way of drawing not recognised")


@rule("C19|C13", "library-order", "Evaluation comparisons order evaluations by their full score")
def order(ctx):
    ops = {"__lt__": ("<", 0), "__gt__": ("<", 1), "__le__": ("<=", 0), "__ge__": ("<=", 1), "__eq__": ("==", 0), "__ne__": ("!=", 0)}
    found = False
    sc = mk("attr", ME, "score")
    for name in ops:
        q = EV + "." + name
        if not ctx.has(q):
            continue
        found = True
        r = ctx.run(q)
        other = mk("attr", P(r, "other", 0), "score")
        rets = r.returns()
        where = fwhere(r)
        if len(rets) != 1 or rets[0].guards:
            ctx.unk(where, "not a plain comparison")
            continue
        t = rets[0].value
        py = {"__lt__": "<", "__gt__": ">", "__le__": "<=", "__ge__": ">=", "__eq__": "==", "__ne__": "!="}
        if is_call(t, "." + name) and t.args[0].op == "attr":
            ctx.decide(t.args[0].args[0] is sc and t.args[1] == (other,), where, f"{name} compares the scores", name)
        elif t is cmp_(py[name], sc, other):
            ctx.ok(where, f"{name} compares the scores")
        else:
            about = contains(t, lambda x: x is sc) and contains(t, lambda x: x is other)
            inner = t.args[0] if t.op == "not" else t
            definite = inner.op == "cmp" and all(x.op in ("attr", "param", "item", "const") for a in inner.args[1:] for x in walk(a)) or (is_call(t, *["." + k for k in ops]) and about)
            ctx.decide(False if definite else None, where, f"{name} compares the scores", name, show_(t))
    if not found:
        ctx.abort("comparison methods of Evaluation not found")


@rule("C19|C13", "library-best", "EvaluationLibrary.n_best: the requested number of evaluations in descending order; those with a model when models are asked for")
def n_best(ctx):
    r = ctx.run(LIB + ".n_best")
    n, wp = P(r, "n", 0), P(r, "with_pipelines", 1)
    M = stored(ctx, "m")
    both = {TOP, OTHER}
    rets = r.returns()
    for name, m, k, w in (("few, with models", 9, 5, True), ("few", 9, 5, False), ("as many as are kept, with models", 5, 5, True), ("more than are kept, with models", 3, 5, True), ("more than are kept", 3, 5, False), ("no limit", None, 5, False), ("no limit, with models", None, 5, True), ("none kept", 0, 5, False)):
        env = {M: m, n: k, wp: w}
        evs = [(e, on(e.guards, env)) for e in rets]
        if any(v is None for _, v in evs):
            ctx.unk(fwhere(r), f"{name}: not decided")
            continue
        act = [e for e, v in evs if v]
        if len(act) != 1:
            ctx.unk(LIB, f"{name}: {len(act)} results")
            continue
        e = act[0]
        for t, _ in leaves(e.value):
            if foldb(truth(t), env) is None and t.op == "ite":
                continue
            base, desc, cnt = best_of(t)
            if base is None:
                ctx.unk(e.where(), f"{name}: result not recognised")
                continue
            src = {x for x in walk(base) if x in both} if base not in both else {base}
            if w:
                ctx.decide(True if src == {TOP} else False if src else None, e.where(), f"{name}: only evaluations whose model is kept are offered", "usable")
            elif m is not None and k > m:
                ctx.decide(True if src == both else False if src else None, e.where(), f"{name}: all evaluations are considered", "all")
            ctx.decide(desc, e.where(), f"{name}: the best come first", "descending")
            try:
                c = fold(cnt, env)
            except (CantFold, AttributeError):
                c = None
            ctx.decide(None if c is None else c == k, e.where(), f"{name}: the requested number", "number")


def best_of(t):
    """(collection, descending?, number) of a 'best n' term."""
    if t.op == "nlargest" and (t.args[2].op == "elem" or (t.args[2].op == "attr" and t.args[2].args[1] == "score" and t.args[2].args[0].op == "elem")):
        return t.args[1], True, t.args[0]
    if t.op == "nsmallest":
        return t.args[1], False, t.args[0]
    if t.op == "pure" and t.args[0] in ("list", "tuple") and len(t.args[1]) == 1:
        return best_of(t.args[1][0])
    if t.op == "slice" and t.args[1] in (NONE, const(0)) and t.args[3] is NONE:
        desc, x = False, t.args[0]
        while True:
            if x.op == "rev":
                desc, x = not desc, x.args[0]
            elif x.op == "pure" and x.args[0] in ("list", "tuple") and len(x.args[1]) == 1:
                x = x.args[1][0]
            else:
                break
        if x.op == "sorted":
            rev = x.args[2]
            rev = rev if isinstance(rev, bool) else (rev is TRUE if is_const(rev) else None)
            key = x.args[1]
            if rev is not None and (key.op == "elem" or (key.op == "attr" and key.args[1] == "score")):
                return x.args[0], desc ^ bool(rev), t.args[2]
    return None, None, None


@rule("C19", "library-all", "EvaluationLibrary.evaluations: the kept and all other evaluations, each once")
def all_of(ctx):
    r = ctx.run(LIB + ".evaluations")
    for e in r.returns():
        parts = seqnorm(r.ex(e.value, e))
        if parts is None or any(k not in ("splice", "each") for k, *_ in parts):
            ctx.unk(e.where(), "collection not recognised")
            continue
        bases = [p[2] for p in parts if not p[1]]
        ctx.decide(sorted(map(str, bases)) == sorted(map(str, (TOP, OTHER))) if all(b in (TOP, OTHER) for b in bases) and not any(p[1] for p in parts) else None,
                   e.where(), "all evaluations are listed, once", "all")


@rule("C19", "library-files", "Evaluation: what is read back from disk is what was stored, models as models and predictions as predictions, from its own file; then memory is freed and no file is left on removal")
def files(ctx):
    w = ctx.run(EV + ".to_disk")
    dumps = [e for e in w.events if e.kind == "call" and e.callee in ("pickle.dump", "joblib.dump", "cloudpickle.dump")]
    where = fwhere(w)
    if len(dumps) != 1 or dumps[0].guards:
        ctx.abort("how an evaluation is stored was not recognised")
    d = dumps[0]
    est, pred = mk("attr", ME, "_estimators"), mk("attr", ME, "_predictions")
    val = w.ex(d.args[0], d)
    slots = {}
    if val.op in ("tuple", "list"):
        for i, x in enumerate(val.args[0]):
            slots[const(i)] = x.args[0] if x.op == "seg_item" else x
    elif val.op == "dict":
        for s in val.args[0]:
            if s.op == "seg_pair":
                slots[s.args[0]] = s.args[1]
    if not slots:
        ctx.abort("what is stored of an evaluation was not recognised")
    have = list(slots.values())
    ctx.decide(est in have and pred in have if not vague(val) else None, d.where(), "both model and predictions are stored", "both", show_(val))
    fh = d.args[1]
    paths = [x.args[1][0] for x in walk(fh) if is_call(x, "open") and x.args[1]] or [fh]
    cache = [e for e in w.events if e.kind == "setattr" and e.base is ME and e.value is paths[0]]
    if not cache:
        ctx.unk(d.where(), "the file is remembered")
        return
    attr = mk("attr", ME, cache[0].name)
    own = contains(paths[0], lambda x: contains(x, lambda y: y is ME)) or contains(paths[0], lambda x: x.op == "call" and is_call(x, "uuid4", "mkstemp", "NamedTemporaryFile"))
    ident = contains(paths[0], lambda x: x.op == "attr" and x.args[1] in ("_id", "id") and contains(x, lambda y: y is ME)) or contains(paths[0], lambda x: is_call(x, "uuid4", "uuid1", "mkstemp", "token_hex", "NamedTemporaryFile"))
    ctx.decide(True if ident else None if own else False, cache[0].where(), "each evaluation has a file of its own", "own-file", show_(paths[0]))
    for a in ("_estimators", "_predictions"):
        sets = [e for e in w.events if e.kind == "setattr" and e.base is ME and e.name == a]
        early = [e for e in sets if e.seq < d.seq]
        ctx.decide(not early, early[0].where() if early else where, f"{a} are not dropped before they are stored", "early" + a)
        val = w.ex(sets[-1].value, sets[-1]) if sets else None
        ctx.decide(val is not None and (val is NONE or (val.op == "list" and not val.args[0])), sets[-1].where() if sets else where, f"{a} are dropped from memory once stored", "freed" + a)
    for prop, mem in (("estimators", est), ("predictions", pred)):
        r = ctx.run(EV + "." + prop)
        wh = fwhere(r)
        other = pred if mem is est else est
        for e in r.returns():
            for t, fs in leaves(e.value):
                if t is mem:
                    facts = set(fs) | set(e.guards)
                    g = band(facts) if facts else TRUE
                    # neither in memory: (falsy, file known) must not reach here
                    ev = foldb(g, {mem: None if mem is pred else [], attr: "f.pkl"})
                    ctx.decide(True if ev is False else None if ev is None else False, e.where(), f"{prop} in memory are used only if they are there, or nothing is stored", "memory-" + prop)
                elif t.op == "item" and any(is_call(x, "pickle.load", "joblib.load", "cloudpickle.load") for x in walk(t)):
                    ld = next(x for x in walk(t) if is_call(x, "pickle.load", "joblib.load", "cloudpickle.load"))
                    if t.args[0] is not ld:
                        ctx.unk(e.where(), f"{prop}: result not recognised")
                        continue
                    got = slots.get(t.args[1])
                    ctx.decide(got is mem if got is not None else None, e.where(), f"{prop} are read from where they were stored", "slot-" + prop)
                    src = [x.args[1][0] for x in walk(ld) if is_call(x, "open") and x.args[1]]
                    ctx.decide(src == [attr] if len(src) == 1 and not vague(src[0]) else None, e.where(), f"{prop} are read from the evaluation's own file", "file-" + prop)
                elif t is other:
                    ctx.bad(e.where(), f"{prop} gives the other attribute", "swap-" + prop)
                else:
                    ctx.unk(e.where(), f"{prop}: result not recognised")
    r = ctx.run(EV + ".remove_from_disk")
    rms = [e for e in r.events if e.kind == "call" and e.callee in ("os.remove", "os.unlink") or e.kind == "call" and meth(e) == "unlink"]
    if not rms:
        ctx.unk(fwhere(r), "removal of the file not recognised")
    for e in rms:
        t = e.args[0] if e.args else e.base
        v = contains(t, lambda x: x is attr)
        ctx.decide(True if v else None if vague(t) else False, e.where(), "the evaluation's own file is removed", "removed")
        after = [x for x in r.events if x.kind == "setattr" and x.base is ME and x.name == attr.args[1]]
        ctx.decide(bool(after) and all(foldb(truth(x.value), {}) is False for x in after if is_const(x.value) or x.value is NONE), after[0].where() if after else e.where(),
                   "a removed file is not referred to any more", "forgotten")
        pre = [x for x in after if x.seq < e.seq]
        ctx.decide(not pre, e.where(), "the file name is still known when the file is removed", "known")


@rule("C19", "library-lookup", "a pipeline is recognised as already evaluated by the same text under which its evaluation was filed")
def library_lookup(ctx):
    r = save_run(ctx)
    ev = P(r, "evaluation", 0)
    sets = [e for e in r.events if e.kind == "setitem" and e.base is LOOKUP]
    if not sets:
        ctx.abort("look-up not found")
    key = r.ex(sets[-1].name, sets[-1])
    if key.op == "call" and key.args[0].op == "attr" and key.args[0].args[0] is ME:
        # a function set by the constructor: its result for an evaluation
        ini = ctx.run(LIB + ".__init__", fresh=True)
        f = attr_at(ini, None, ME, key.args[0].args[1])
        item = mk("param", "evaluation")
        key = None
        if f is not None and f.op in ("fn", "lam", "lambda", "bound"):
            key = ini.it.expand(ini.it.call(ini.state, f, [item], [], None), ini.state.cont)
    else:
        item = ev
    if key is None:
        ctx.abort("key of the look-up not understood")
    OPS = "gama.genetic_programming.operator_set.OperatorSet"
    t = ctx.run(OPS + ".try_until_new")
    done = mk("attr", ME, "_completed_evaluations")
    asks = {(c.args[1], e.where()) for e in t.events if e.kind == "return" for g in e.guards for c in walk(g)
            if c.op == "cmp" and c.args[0] == "in" and c.args[2] is done}
    if len(asks) != 1:
        ctx.abort("test for earlier evaluations not understood")
    ask, where = asks.pop()
    inds = {z for z in walk(ask) if z.op == "call" and z.args[0].op == "param"}
    if len(inds) != 1:
        ctx.abort("test for earlier evaluations not understood")
    from vp.terms import subst

    def norm(t):
        if is_call(t, ".pipeline_str") and not t.args[1] and not t.args[2]:
            f = t.args[0]
            return mk("pure", "str", (mk("attr", f.args[1] if f.op == "bound" else f.args[0], "main_node"),), ())
        return t
    want = subst(ask, {inds.pop(): mk("attr", item, "individual")})
    key, want = norm(key), norm(want)
    same = key is want
    known = all(is_call(x, ".short_name") or x.op == "attr" or x.op == "pure" for x in (key, want))
    ctx.decide(True if same else False if known else None, sets[-1].where(),
               "the text a pipeline is filed under is the one it is looked for", "key", show_(key) + " / " + show_(want))
