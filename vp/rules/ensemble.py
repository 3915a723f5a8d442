"""Ensemble: selection, weights and averages (C32), rows (C10), probabilities and labels (C23)."""
from __future__ import annotations

from vp import arith
from vp.check import rule
from vp.rules.util import *  # noqa: F401,F403
from vp.rules.util import P
from vp.terms import subst

MOD = "gama.postprocessing.ensemble"
E = MOD + ".Ensemble"
EC = MOD + ".EnsembleClassifier"
ER = MOD + ".EnsembleRegressor"
ME = mk("param", "self")
MODELS = mk("attr", ME, "_models")
FIT = mk("attr", ME, "_fit_models")
AVG, TOT, ADD, SCORE, MEAN, TOTFIT = (E + "." + n for n in ("_averaged_validation_predictions", "_total_model_weights", "_add_model", "_ensemble_validation_score", "_get_weighted_mean_predictions", "_total_fit_weights"))
LIBP = E + ".model_library"


def anon(t):
    """The term with loop numbers of keys and elements removed."""
    m = {}
    for x in walk(t):
        if x.op in ("key", "idx") and len(x.args) > 1:
            m[x] = mk(x.op, x.args[0], 0)
    return subst(t, m) if m else t


def member(t, base):
    """The (model, weight) pair a per-member term is about, if it is the current one of base."""
    if t.op == "elem" and t.args[0] is base:
        return True
    if t.op == "elem" and is_call(t.args[0], ".values") and t.args[0].args[0].args[0] is base:
        return True
    return t.op == "item" and t.args[0] is base and t.args[1].op == "key" and t.args[1].args[0] is base


def part(t, i, base):
    return t.op == "item" and t.args[1] is const(i) and member(t.args[0], base)


def sum_of(t):
    """(base, guards, element) of a sum over all elements of something."""
    if t.op != "sum":
        return None
    l = t.args[0]
    p = seqnorm(l)
    if p is None or len(p) != 1 or p[0][0] != "each":
        return None
    return p[0][2], p[0][1], p[0][3]


def is_total(t, base):
    """True / False / None: is t the sum of the weights in base?"""
    s = sum_of(t)
    if s is None:
        # a number of things, not a sum of weights
        return False if t.op == "len" and not vague(t) else None
    b, g, el = s
    if b is not base or g:
        return False if not vague(b) and b in (MODELS, FIT) else None
    return True if part(el, 1, base) else None if vague(el) else False


@rule("C32", "ensemble-add", "Ensemble._add_model: the member's weight grows by the given amount (1 by default), starting from 0, and is kept under the pipeline's own id")
def add_model(ctx):
    r = ctx.run(ADD)
    model, w = P(r, "model", 0), P(r, "add_weight", 1)
    d = r.fn.node.args.defaults
    if d:
        ctx.decide(getattr(d[-1], "value", None) == 1, fwhere(r), "one selection counts once", "default")
    sets = [e for e in r.events if e.kind == "setitem" and e.base is MODELS]
    if not sets:
        ctx.abort("where the weight is stored was not found")
    ident = mk("attr", mk("attr", model, "individual"), "_id")
    for e in sets:
        for t, facts in leaves(e.value):
            if t.op != "tuple" or len(t.args[0]) != 2:
                ctx.unk(e.where(), "stored pair not recognised")
                continue
            m, n = t.args[0]
            for nv, f2 in leaves(n):
                p = arith.poly(nv)
                olds, bad = [], False
                for mono, c in p.items():
                    if mono == (w,) and c == 1:
                        continue
                    x = mono[0] if len(mono) == 1 else None
                    src = x.args[0] if x is not None and x.op == "item" and x.args[1] is const(1) else None
                    if c == 1 and src is not None and is_call(src, ".pop", ".get") and src.args[0].args[0] is MODELS and src.args[1] and src.args[1][0] is ident:
                        dflt = src.args[1][1] if len(src.args[1]) > 1 else None
                        dw = dflt.args[0][1] if dflt is not None and dflt.op == "tuple" and len(dflt.args[0]) == 2 else None
                        olds.append(dw is const(0))
                        bad |= dw is not const(0)
                    elif c == 1 and src is not None and src.op == "item" and src.args[0] is MODELS and src.args[1] is ident:
                        olds.append(True)
                    elif c == 1 and src is not None and e.name.op == "attr" and e.name.args[1] == "_id" and (
                            is_call(src, ".pop", ".get") and src.args[0].args[0] is MODELS and src.args[1] and
                            (not vague(src.args[1][0]) or is_call(src.args[1][0], ".short_name", ".pipeline_str"))):
                        bad = True   # looked up under another key than the one it is stored under
                        break
                    else:
                        bad = None if x is None or vague(x) or not (x is not None and x.op == "const") and mono != () else True
                        break
                if (w,) not in p:
                    bad = True if not vague(nv) else None
                if bad is False and not olds:
                    # no earlier weight: only right if the pipeline is not in the ensemble yet
                    known = [f for f in set(facts) | set(f2) | set(e.guards) if contains(f, lambda x: x is MODELS)]
                    bad = None if known else True
                ctx.decide(None if bad is None else not bad, e.where(), "the new weight is the earlier weight plus the added one", "weight", show_(nv))
            key = e.name if isinstance(e.name, type(t)) else None
            if key is not None:
                v = key is ident or (key.op == "attr" and key.args[1] == "_id")
                ctx.decide(True if v else None if vague(key) else False, e.where(), "it is stored under the pipeline's id", "key", show_(key))


@rule("C32", "ensemble-average", "weighted averages: the sum of prediction times weight over all members, divided by the sum of those weights (validation predictions and final predictions)")
def average(ctx):
    for q, base, method in ((AVG, MODELS, False), (MEAN, FIT, True)):
        r = ctx.run(q)
        for e in r.returns():
            if e.fn != q:
                continue
            t = e.value
            for t, _ in leaves(r.ex(t, e)):
                if t.op != "bin" or t.args[0] != "/":
                    ctx.decide(False if t.op == "sum" else None, e.where(), "the sum is divided by the total weight", "divided")
                    continue
                ctx.decide(is_total(t.args[2], base), e.where(), "the divisor is the total weight of the members", "total", show_(t.args[2]))
                s = sum_of(t.args[1])
                if s is None:
                    ctx.unk(e.where(), "the sum was not recognised")
                    continue
                b, g, el = s
                ctx.decide(False if g or (b is not base and b in (MODELS, FIT)) else True if b is base else None, e.where(), "the sum is over all members", "members")
                for el1, _ in leaves(el):
                    p = arith.poly(el1)
                    if len(p) != 1 or set(p.values()) != {1}:
                        ctx.unk(e.where(), "the summed term was not recognised")
                        continue
                    mono = next(iter(p))
                    ws = [x for x in mono if part(x, 1, base)]
                    rest = [x for x in mono if not part(x, 1, base)]
                    if len(rest) != 1:
                        ctx.unk(e.where(), "the summed term was not recognised")
                        continue
                    ctx.decide(len(ws) == 1, e.where(), "each prediction is multiplied by its member's weight, once", "weight", show_(el1))
                    ok = []
                    for x, _ in leaves(rest[0]):
                        if method:
                            calls = [y for y in walk(x) if y.op == "call" and y.args[0].op in ("dynattr", "attr") and part(y.args[0].args[0], 0, base)]
                            ok.append(bool(calls) and all(c.args[1] == (P(r, "X", 0),) for c in calls))
                        else:
                            ok.append(x.op == "attr" and x.args[1] == "predictions" and part(x.args[0], 0, base))
                    ctx.decide(True if all(ok) else None if vague(rest[0]) else None, e.where(), "the prediction is that of the same member", "prediction")
    for q, base in ((TOT, MODELS), (TOTFIT, FIT)):
        if not ctx.has(q):
            continue
        r = ctx.run(q)
        for e in r.returns():
            ctx.decide(is_total(r.ex(e.value, e), base), e.where(), "the total is the sum of the weights of all members", q.rsplit(".", 1)[1], show_(e.value))


@rule("C23|C32", "ensemble-method", "Ensemble._get_weighted_mean_predictions: the requested kind of prediction is taken from each member, and transformed as the validation predictions are")
def method(ctx):
    r = ctx.run(MEAN)
    want = P(r, "predict_method", 1)
    tr = mk("attr", ME, "_prediction_transformation")
    preds = [e for e in r.events if e.kind == "call" and e.f is not None and e.f.op in ("dynattr", "attr") and contains(e.f, lambda x: part(x, 0, FIT))]
    if not preds:
        ctx.abort("prediction of a member not found")
    for e in preds:
        name = e.f.args[1]
        ctx.decide(name is want if not isinstance(name, str) else False, e.where(), "members are asked for the requested kind of prediction", "kind")
        ts = [x for x in r.events if x.kind == "call" and x.args and x.args[0] is e.res and (x.f is tr or contains(x.f, lambda y: y is tr) or x.callee.endswith("._prediction_transformation"))]
        v = None if not ts else all(foldb(g, {tr: 1}) is True or g in e.guards for x in ts for g in x.guards)
        if not ts:
            v = False if not [x for x in r.events if "_prediction_transformation" in str(x.callee)] else None
        ctx.decide(v, ts[0].where() if ts else e.where(), "predictions are transformed whenever a transformation is set", "transformed")


def expand_run(ctx):
    for q in (AVG, TOT, ADD, SCORE):
        if not ctx.has(q):
            ctx.abort(f"{q.rsplit('.', 1)[1]} not found")
    return ctx.run(E + ".expand_ensemble", opaque=(AVG, TOT, ADD, "#" + LIBP, SCORE))


@rule("C32|C13", "ensemble-greedy", "Ensemble.expand_ensemble: n times, the candidate of the library for which the updated average scores best is added; average and weights are those of the current ensemble")
def greedy(ctx):
    r = expand_run(ctx)
    n = P(r, "n", 0)
    adds = [e for e in r.events if e.kind == "call" and e.callee == ADD]
    if len(adds) != 1:
        ctx.abort("addition of the selected model not found")
    a = adds[0]
    loops = [c[1] for c in a.ctx if c[0] == "loop"]
    if not loops:
        ctx.bad(a.where(), "only one model is added, whatever number was requested", "repeated")
        return
    info = r.it.loops[loops[0]]
    base = info.get("base")
    if info["kind"] == "for" and base is not None and base.op == "range":
        rng = base.args[0]
        cnt = rng[0] if len(rng) == 1 else None
        if len(rng) == 2:
            from vp.terms import mk as _mk
            cnt = mk("bin", "-", rng[1], rng[0])
        ctx.decide(None if cnt is None else arith.same(cnt, n), a.where(), "as many models are added as requested", "number", show_(base))
    else:
        ctx.unk(a.where(), "as many models are added as requested")
    if len(loops) > 1:
        ctx.bad(a.where(), "a model is added for each candidate instead of once per round", "once")
        return
    extra = [g for g in a.guards if g not in info["head_guards"]]
    ctx.decide(True if not extra else None, a.where(), "one model is added in each round", "each-round")
    if len(a.args) > 1 or a.kwargs:
        w = a.args[1] if len(a.args) > 1 else dict(a.kwargs).get("add_weight")
        ctx.decide(w is const(1) if w is not None and is_const(w) else None, a.where(), "one selection counts once", "one")
    sel = a.args[0]
    if sel.op in ("max", "min") and len(sel.args) >= 2:
        el, sc = mk("elem", sel.args[0]), sel.args[1]
        score_of(ctx, r, a, el, sc, sel.op == "max", info, loops[0], sel.args[0])
        return
    if sel.op != "loopphi":
        ctx.unk(a.where(), "the selected model was not recognised", "")
        return
    phis = r.it.loops[sel.args[0]]["phis"]
    if sel not in phis:
        ctx.unk(a.where(), "the selected model was not recognised")
        return
    lid = sel.args[0]
    inner = r.it.loops[lid]
    if inner.get("breaks"):
        ctx.unk(a.where(), "the search for the best candidate can stop early")
    found = False
    for leaf, facts in leaves(phis[sel][1]):
        if leaf is sel:
            continue
        if leaf.op != "elem":
            ctx.unk(a.where(), "the selected model was not recognised")
            return
        found = True
        cmps = [(f.args[0], f.args[1], f.args[2]) for f in facts if f.op == "cmp" and f.args[0] in ("<", "<=")]
        cmps += [("<=" if f.args[0].args[0] == "<" else "<", f.args[0].args[2], f.args[0].args[1]) for f in facts if f.op == "not" and f.args[0].op == "cmp" and f.args[0].args[0] in ("<", "<=")]
        hit = None
        for op, x, y in cmps:
            if x.op == "loopphi" and x.args[0] == lid and x in phis:
                hit = (x, y, True)
            elif y.op == "loopphi" and y.args[0] == lid and y in phis:
                hit = (y, x, False)
        if hit is None and any(contains(z, lambda v: is_score(r, v)) for _, x, y in cmps for z in (x, y)):
            # compared with something that does not follow the best candidate
            fixed = [o for _, x, y in cmps for z, o in ((x, y), (y, x)) if is_score(r, z)]
            ctx.decide(False if fixed and all(is_const(o) for o in fixed) else None, a.where(), "the best score so far is remembered with the candidate", "remembered", show_(fixed[0]) if fixed else "")
            return
        if hit is None:
            ctx.unk(a.where(), "the comparison that selects a candidate was not recognised")
            return
        S, sc, up = hit
        again = [f for f in facts if contains(f, lambda z: z is MODELS) and contains(f, lambda z: z is leaf) and
                 (f.op == "in" or f.op == "not" and f.args[0].op == "in" or f.op == "cmp" or f.op == "not" and f.args[0].op == "cmp")]
        ctx.decide(False if again else True, a.where(), "a candidate that is in the ensemble already can be selected again", "again", show_(again[0]) if again else "")
        upd = [l for l, f in leaves(simplify(phis[S][1], facts))]
        ctx.decide(True if upd == [sc] else False if upd == [S] else None, a.where(), "the best score so far is remembered with the candidate", "remembered")
        other = [l for l, f in leaves(phis[S][1]) if l is not S and l is not sc]
        stay = [l for l, f in leaves(phis[S][1]) if l is sc and not all(x in f or holds(x, f) is True for x in facts if contains(x, lambda y: y is S))]
        ctx.decide(True if not other and not stay else None if other else False, a.where(), "the best score changes only with the candidate", "with-candidate")
        init = phis[S][0]
        iv = init.args[0] if is_const(init) else None
        ctx.decide(iv == float("-inf") if iv is not None and not isinstance(iv, str) else None, a.where(), "any score is accepted at first", "initial", show_(init))
        score_of(ctx, r, a, leaf, sc, up, info, loops[0], leaf.args[0])
    if not found:
        ctx.unk(a.where(), "the selected model was not recognised")


def score_of(ctx, r, a, el, sc, up, info, outer, base):
    ctx.decide(up, a.where(), "the candidate with the highest score is selected", "highest")
    lib = [e for e in r.events if e.kind == "call" and e.callee == LIBP]
    ctx.decide(True if any(e.res is base for e in lib) else None if vague(base) or not lib else False, a.where(), "all models of the library are candidates", "candidates", show_(base))
    call = [e for e in r.events if e.kind == "call" and e.callee == SCORE and e.res is sc]
    if not call or not call[0].args:
        ctx.decide(False if call else None, a.where(), "candidates are judged by the score of the ensemble with them", "score")
        return
    cand = call[0].args[0]
    skip = [g for g in call[0].guards if g not in info["head_guards"]]
    odd = [g for g in skip if not (contains(g, lambda x: x.op == "attr" and x.args[1] == "score" and x.args[0] is el))]
    if odd:
        ctx.unk(call[0].where(), "some candidates are not judged")
    avg = [e for e in r.events if e.kind == "call" and e.callee == AVG]
    tot = [e for e in r.events if e.kind == "call" and e.callee == TOT]
    A = [e for e in avg if contains(cand, e.res)]
    W = [e for e in tot if contains(cand, e.res)]
    if len(A) != 1 or len(W) != 1:
        ctx.decide(False if A and not W and not vague(cand) and arith_only(cand) else None, call[0].where(), "the candidate average is formed from the ensemble's average and weight", "formula", show_(cand))
        return
    pred = mk("attr", el, "predictions")
    one = const(1)
    want = mk("bin", "/", mk("bin", "+", mk("bin", "*", A[0].res, W[0].res), pred), mk("bin", "+", W[0].res, one))
    v = arith.same_ratio(cand, want)
    atoms = {x for m in list(arith.ratio(cand)[0]) + list(arith.ratio(cand)[1]) for x in m}
    ctx.decide(True if v else False if atoms <= {A[0].res, W[0].res, pred} else None, call[0].where(), "the candidate average weighs the current members by their weight and the candidate by one", "formula", show_(cand))
    for e, what in ((A[0], "average"), (W[0], "total weight")):
        inside = ("loop", outer) in e.ctx
        ctx.decide(inside, e.where(), f"the {what} is that of the current ensemble, after earlier additions", "fresh-" + what.split()[0])


def is_score(r, t):
    return any(e.res is t for e in r.events if e.kind == "call" and e.callee == SCORE)


def arith_only(t):
    return all(x.op != "call" or x.args[0].op == "bound" for x in walk(t))


@rule("C32|C13", "ensemble-initial", "Ensemble.build_initial_ensemble: starts from nothing with the n best models of the library, each once")
def initial(ctx):
    r = ctx.run(E + ".build_initial_ensemble", opaque=(ADD, "#" + LIBP, SCORE))
    n = P(r, "n", 0)
    adds = [e for e in r.events if e.kind == "call" and e.callee == ADD]
    lib = [e for e in r.events if e.kind == "call" and e.callee == LIBP]
    if len(adds) != 1 or not lib:
        ctx.abort("addition of the initial models not found")
    a = adds[0]
    t = a.args[0]
    src = t.args[0] if t.op == "elem" else None
    if src is None:
        ctx.unk(a.where(), "the added models were not recognised")
    elif src.op == "slice" and src.args[0] in [e.res for e in lib]:
        ok = src.args[1] in (NONE, const(0)) and src.args[2] is n and src.args[3] in (NONE, const(1))
        ctx.decide(True if ok else None if vague(src) else False, a.where(), "the n first, that is best, models are added", "best", show_(src))
    elif src in [e.res for e in lib]:
        lim = [c[1] for c in a.ctx if c[0] == "loop"]
        brk = lim and r.it.loops[lim[0]].get("breaks")
        ctx.decide(None if brk or len(a.guards) > 1 else False, a.where(), "no more than n models are added", "limited")
    else:
        ctx.unk(a.where(), "the added models were not recognised", )
    old = [e for e in r.events if e.kind == "setattr" and e.base is ME and e.name == "_models" and e.seq < a.seq]
    has = [x for e in old for x in [r.ex(e.value, e)] if x.op == "dict" and not x.args[0]]
    g = [e for e in old if on(e.guards, {MODELS: {1: 2}, n: 3}) is True]
    ctx.decide(True if g and has else False if not old and not [e for e in r.events if e.kind in ("call", "mutate") and e.base is MODELS] else None, old[0].where() if old else fwhere(r), "models of an earlier selection are removed", "fresh")


@rule("C32", "ensemble-members", "Ensemble.fit: every selected pipeline takes part with all its fold models, each with the pipeline's weight")
def members(ctx):
    r = ctx.run(E + ".fit")
    sets = [e for e in r.events if e.kind == "setattr" and e.base is ME and e.name == "_fit_models"]
    if not sets:
        ctx.abort("where the members are kept was not found")
    e = sets[-1]
    t = r.ex(e.value, e)
    ok = None
    why = show_(t)
    if t.op in ("list", "tuple") and len(t.args[0]) == 1 and t.args[0][0].op == "seg_each":
        _, base, g, el = t.args[0][0].args
        if base is MODELS and g:
            ok = False
        elif base is MODELS and el.op == "seg_each":
            _, b2, g2, el2 = el.args
            if el2.op == "seg_item":
                el2 = el2.args[0]
            fold = b2.op == "attr" and b2.args[1] == "estimators" and part(b2.args[0], 0, MODELS)
            if g2 and fold:
                ok = False
            elif fold and el2.op == "tuple" and len(el2.args[0]) == 2:
                m, w = el2.args[0]
                ok = True if m.op == "elem" and m.args[0] is b2 and part(w, 1, MODELS) else None if vague(el2) else False
                why = show_(el2)
            elif b2.op == "slice" and b2.args[0].op == "attr" and b2.args[0].args[1] == "estimators":
                ok = False
        elif base is MODELS and el.op == "tuple" and el.args[0][0].op == "item" and el.args[0][0].args[0].op == "attr" and el.args[0][0].args[0].args[1] == "estimators":
            ok = False
    ctx.decide(ok, e.where(), "all fold models of each selected pipeline take part with its weight", "members", why)


@rule("C32", "ensemble-size", "build_fit_ensemble: the initial models and the added ones together are the requested number, and the members are put to use however long the selection took")
def size(ctx):
    q = MOD + ".build_fit_ensemble"
    names = [E + "." + x for x in ("build_initial_ensemble", "expand_ensemble", "fit", "__init__")] + [TOT]
    r = ctx.run(q, opaque=tuple(names) + (EC + ".__init__",))
    sz = P(r, "ensemble_size", 2)
    metric = P(r, "metric", 4)
    tt = mk("attr", metric, "task_type")
    init = [e for e in r.events if e.kind == "call" and e.callee == E + ".build_initial_ensemble"]
    exp = [e for e in r.events if e.kind == "call" and e.callee == E + ".expand_ensemble"]
    tot = [e for e in r.events if e.kind == "call" and e.callee == TOT]
    fit = [e for e in r.events if e.kind == "call" and e.callee == E + ".fit"]
    if not init or not fit:
        ctx.abort("steps of the construction not found")
    kinds = {x.args[2] for x in walk(mk("tuple", tuple(g for e in init for g in e.guards))) if x.op == "cmp" and x.args[0] == "==" and x.args[1] is tt} | \
            {x.args[1] for x in walk(mk("tuple", tuple(g for e in init for g in e.guards))) if x.op == "cmp" and x.args[0] == "==" and x.args[2] is tt}
    kinds = {k.args[0] for k in kinds if is_const(k)} or {0}
    for k in sorted(kinds):
        for s in (1, 2, 5, 9, 10, 11, 12, 25, 100):
            env = {sz: s, tt: k}
            i = [e for e in init if on(e.guards, env) is not False]
            if len(i) != 1 or on(i[0].guards, env) is None:
                ctx.unk(fwhere(r), f"size {s}: initial selection not decided")
                continue
            try:
                ni = fold(i[0].args[0], env)
            except CantFold:
                ctx.unk(i[0].where(), f"size {s}: number of initial models not decided")
                continue
            ctx.decide(1 <= ni <= s, i[0].where(), f"size {s}: the {ni} initial models are at least one and no more than requested", "initial")
            for have in sorted({1, ni}):
                env2 = dict(env)
                for t in tot:
                    env2[t.res] = have
                x = [e for e in exp if on(e.guards, env2) is not False]
                if any(on(e.guards, env2) is None for e in x):
                    ctx.unk(fwhere(r), f"size {s}: number of added models not decided")
                    continue
                try:
                    more = sum(fold(e.args[0], env2) for e in x)
                except CantFold:
                    ctx.unk(x[0].where(), f"size {s}: number of added models not decided")
                    continue
                ctx.decide(have + more == s, x[0].where() if x else fwhere(r), f"size {s}: {have} models and {more} additions", "size")
    for e in fit:
        late = [x for x in exp if x.seq > e.seq]
        ctx.decide(not late, e.where(), "members are collected after the selection", "after")
        f = ctx.run(E + ".fit")
        to = P(f, "timeout", 2)
        arg = e.kw("timeout", 2)
        if arg is None:
            ctx.ok(e.where(), "the members are used however long the selection took")
            continue
        rs = [x for x in f.events if x.kind == "raise" and contains(mk("tuple", tuple(x.guards)), lambda y: y is to)]
        stop = [x for x in rs if on([g for g in x.guards if contains(g, to)], {to: -1}) is True]
        low = is_call(arg, "max") or arg.op in ("max", "pure") and contains(arg, lambda y: y.op == "const")
        ctx.decide(True if not stop or low else None if vague(arg) else False if contains(arg, lambda y: is_call(y, "time.time", "perf_counter", "monotonic") or y.op == "attr" and y.args[1] == "elapsed_time") or arg is P(r, "timeout", 3) else None,
                   e.where(), "the members are used however long the selection took", "time-left", show_(arg))


@rule("C10|C32", "ensemble-rows", "Ensemble: targets and predictions are reduced to the same rows, in the same order: the library's sample (targets only, as the library's predictions already are), then the ensemble's own")
def rows(ctx):
    r = ctx.run(E + ".__init__", opaque=("gama.utilities.metrics.Metric.__init__",))
    y, lib, ds = P(r, "y", 1), P(r, "evaluation_library", 2), P(r, "downsample_to", 4)
    S = mk("attr", lib, "_sample")
    final = attr_at(r, None, ME, "_y")
    samp = attr_at(r, None, ME, "_prediction_sample")
    if final is None or samp is None:
        ctx.abort("targets of the ensemble not found")
    lens = {x for t in (final, samp) for x in walk(t) if x.op == "len"}

    def at(t, env):
        for _ in range(12):
            if t.op == "ite":
                c = foldb(t.args[0], env)
                if c is None:
                    return None
                t = t.args[1] if c else t.args[2]
            elif t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] in ("iloc", "loc"):
                b = at(t.args[0].args[0], env)
                i = at(t.args[1], env)
                return None if b is None or i is None else mk("rows", t.args[0].args[1], b, i)
            elif t.op == "item" and t.args[0].op != "attr":
                b = at(t.args[0], env)
                i = at(t.args[1], env)
                return None if b is None or i is None else mk("rows", "", b, i)
            else:
                return t
        return None

    ml = ctx.run(LIBP)
    sets = [e for e in ml.events if e.kind == "setattr" and e.name == "_predictions"]
    preds = [(e, ml.ex(e.value, e)) for e in sets]
    TRF = mk("attr", ME, "_prediction_transformation")
    PS = mk("attr", ME, "_prediction_sample")
    for lname, sv, nlen in (("the library keeps all rows", None, 9), ("the library keeps a sample", [0, 2, 4, 5, 6], 5)):
        for dname, d in (("no limit", None), ("fewer rows than the limit", 12), ("as many rows as the limit", nlen), ("more rows than the limit", 3)):
            env = {S: sv, ds: d, y: list(range(9))}
            for l in lens:
                env[l] = nlen
            name = f"{lname}, {dname}"
            t = at(final, env)
            s = at(samp, env)
            if t is None or s is None:
                ctx.unk(fwhere(r), f"{name}: rows not decided")
                continue
            want = mk("rows", "iloc", y, S) if sv is not None else y
            if d == 3:
                want = mk("rows", "iloc", want, s)
            own = s is not NONE
            ctx.decide(own == (d == 3), fwhere(r), f"{name}: the ensemble draws its own sample if and only if it is needed", "own-sample", show_(s))
            if own and d == 3:
                try:
                    k = fold(kwarg(s, "k", 1) or kwarg(s, "size", 1), env) if s.op == "call" else None
                except (CantFold, AttributeError):
                    k = None
                ctx.decide(None if k is None else k == d, fwhere(r), f"{name}: as many rows as requested", "number")
                pop = s.args[1][0] if s.op == "call" and s.args[1] else None
                rng = pop.args[0][-1] if pop is not None and pop.op == "range" else None
                if rng is not None and rng is ds:
                    ctx.bad(fwhere(r), f"{name}: positions are drawn among the first rows only", "population")
                elif rng is not None and rng.op == "len":
                    b = at(rng.args[0], env)
                    ctx.decide(None if b is None else b is (mk("rows", "iloc", y, S) if sv is not None else y), fwhere(r), f"{name}: positions are drawn among the rows that predictions are kept for", "population", show_(b))
            ctx.decide(True if t is want else None if vague(t) else False, fwhere(r), f"{name}: targets are those of the stored rows, by position", "targets", show_(t))
            for e, v in preds:
                for tr in (None, 1):
                    env2 = dict(env)
                    env2[TRF] = tr
                    env2[PS] = [0, 1, 2] if own else None
                    p = at(v, env2)
                    if p is None:
                        ctx.unk(e.where(), f"{name}: predictions not decided")
                        continue
                    sampled = [x for x in walk(p) if x.op == "rows"]
                    if own:
                        ok = len(sampled) == 1 and sampled[0].args[3 - 1] is PS or (len(sampled) == 1 and sampled[0].args[-1] is PS)
                        i = sampled[0].args[-1] if len(sampled) == 1 else None
                        moved = i is not None and any(z.op in ("sorted", "rev", "set", "slice") and z.args[0] is PS and not contains(s, lambda q: q.op == z.op) for z in walk(i))
                        ctx.decide(True if ok else False if not sampled or len(sampled) > 1 or moved else None, e.where(), f"{name}: predictions are reduced to the rows of the targets, once", "predictions", show_(p))
                    else:
                        ctx.decide(not sampled, e.where(), f"{name}: all stored predictions are used", "all-predictions", show_(p))
                    has = contains(p, lambda x: x.op == "call" and (x.args[0] is TRF or x.args[0].op == "attr" and x.args[0].args[1] == "_prediction_transformation"))
                    ctx.decide(has == (tr is not None), e.where(), f"{name}: predictions are transformed if and only if a transformation is set", "transformed")
    if not sets:
        ctx.unk(fwhere(ml), "predictions of the candidates were not recognised")
    # candidates come from the library's best, and its own evaluations are left alone
    for e in sets:
        ctx.decide(True if e.base.op in ("call", "copy", "obj", "deepcopy") else False if e.base.op == "elem" else None, e.where(), "evaluations of the library keep their predictions", "copied", show_(e.base))


@rule("C32", "ensemble-candidates", "Ensemble.model_library: the candidates are the best evaluations of the library that have a model, up to the ensemble's limit")
def candidates(ctx):
    r = ctx.run(LIBP, opaque=("gama.utilities.evaluation_library.EvaluationLibrary.n_best",))
    lim = mk("attr", ME, "_use_top_n_only")
    nb = [e for e in r.events if e.kind == "call" and e.callee.endswith(".n_best")]
    if len(nb) != 1:
        ctx.abort("candidates of the ensemble not found")
    e = nb[0]
    wp = e.kw("with_pipelines", 1)
    ctx.decide(True if wp is None or wp is TRUE else False if wp is FALSE else None, e.where(), "only evaluations with a model are candidates", "usable")
    k = e.kw("n", 0)
    ctx.decide(True if k is not None and contains(k, lim) else None if k is None or vague(k) else False, e.where(), "up to the ensemble's limit", "limit", show_(k))
    ret = [x for x in r.returns() if x.fn == LIBP]
    for x in ret:
        for t, _ in leaves(r.ex(x.value, x)):
            p = seqnorm(t)
            if p is None:
                ctx.unk(x.where(), "candidates not recognised")
                continue
            for kind, g, b, el, rev in p:
                if kind == "each" and b is e.res:
                    ctx.decide(not g and not rev, x.where(), "all of them, best first", "all")


# ---------------------------------------------------------------- classes and probabilities
RP = mk("attr", mk("attr", ME, "_metric"), "requires_probabilities")


@rule("C23|C32|C13", "ensemble-score", "ensemble validation: a metric that needs probabilities gets the averaged probabilities against one-hot targets, another gets the label with the highest average against labels; higher is better")
def ens_score(ctx):
    for cls in (EC, ER):
        q = cls + "._ensemble_validation_score"
        if not ctx.has(q):
            ctx.unk(cls, "validation score not found")
            continue
        r = ctx.run(q, self_cls=cls, opaque=(AVG,))
        pv = P(r, "prediction_to_validate", 0)
        Y = mk("attr", ME, "_y")
        for e in r.returns():
            if e.fn != q:
                continue
            for t, fs in leaves(e.value):
                if not is_call(t, ".maximizable_score"):
                    ctx.decide(False if is_call(t, "._metric.score", ".score") else None, e.where(), "the score to maximise is used", "maximise", show_(t))
                    continue
                yt, yp = kwarg(t, "y_true", 0) or kwarg(t, "y", 0), kwarg(t, "predictions", 1)
                yp = yp if yp is not None else (t.args[1] + (None, None))[1]
                if yt is None or yp is None:
                    ctx.unk(e.where(), "arguments of the score not recognised")
                    continue
                ctx.decide(True if yt is Y else False if contains(yt, pv) else None, e.where(), "targets come first", "targets")
                dec = [x for x in walk(yp) if is_call(x, ".inverse_transform", ".argmax", "numpy.argmax")]
                if cls == ER:
                    ctx.decide(not dec and contains(yp, pv), e.where(), "the given prediction is judged", "given")
                    continue
                facts = set(fs) | set(e.guards)
                need = holds(RP, facts)
                if need is None:
                    ctx.unk(e.where(), "case not recognised")
                    continue
                ctx.decide(True if bool(dec) != need else None if vague(yp) else False, e.where(), ("probabilities" if need else "labels") + " are judged when the metric needs them", "kind-" + str(need))
                ctx.decide(True if contains(yp, pv) else None if vague(yp) else False, e.where(), "the given prediction is judged", "given")
                for x in dec:
                    if is_call(x, ".inverse_transform"):
                        ctx.decide(True if x.args[0].args[0] is mk("attr", ME, "_one_hot_encoder") else None, e.where(), "labels are decoded by the encoder of the ensemble", "encoder")


@rule("C23|C32", "ensemble-classes", "EnsembleClassifier: one encoder, fitted on all training labels, codes targets (for metrics on probabilities) or predictions (for the others), and decodes the average")
def classes(ctx):
    r = ctx.run(EC + ".__init__", self_cls=EC, opaque=(E + ".__init__",))
    y = P(r, "y_true", 1)
    enc = attr_at(r, None, ME, "_one_hot_encoder")
    if enc is None:
        ctx.abort("encoder of the labels not found")
    fits = [e for e in r.events if e.kind == "call" and e.callee.rsplit(".", 1)[-1] in ("fit", "fit_transform") and (e.base is enc or (is_call(enc, ".fit") and e.res is enc))]
    if not fits:
        ctx.unk(fwhere(r), "fitting of the encoder not found")
    for e in fits:
        a = e.args[0] if e.args else None
        src = None if a is None else {x for x in walk(a) if x is y or (x.op == "attr" and x.args[1] == "_y")}
        ctx.decide(None if src is None else True if src == {y} and not contains(a, lambda x: x.op in ("slice",) or x.op == "item") else False if mk("attr", ME, "_y") in (src or ()) else None,
                   e.where(), "the encoder knows all labels of the training data", "all-labels", show_(a))
    ys = [e for e in r.events if e.kind == "setattr" and e.base is ME and e.name == "_y"]
    tr = [e for e in r.events if e.kind == "setattr" and e.base is ME and e.name == "_prediction_transformation"]
    for need in (True, False):
        env = {RP: need}
        m = attr_at(r, None, ME, "_metric")
        if m is not None:
            env[mk("attr", m, "requires_probabilities")] = need
        yy = [e for e in ys if on(e.guards, env) is not False]
        tt = [e for e in tr if on(e.guards, env) is not False and e.value is not NONE]
        if any(on(e.guards, env) is None for e in yy + tt):
            ctx.unk(fwhere(r), "coding of targets and predictions not decided")
            continue
        coded = [e for e in yy if contains(e.value, lambda x: is_call(x, ".transform") or is_call(x, "get_dummies"))]
        what = "metric on probabilities" if need else "metric on labels"
        ctx.decide(bool(coded) == need, (yy or [None])[0].where() if yy else fwhere(r), f"{what}: targets are " + ("one-hot" if need else "left as labels"), "targets-" + str(need))
        ctx.decide(bool(tt) != need, (tt or [None])[0].where() if tt else fwhere(r), f"{what}: predictions are " + ("left as they are" if need else "one-hot coded"), "predictions-" + str(need))
        for e in coded:
            x = next((x for x in walk(e.value) if is_call(x, ".transform")), None)
            if x is not None:
                ctx.decide(True if x.args[0].args[0] is enc else None, e.where(), "targets are coded by the ensemble's encoder", "same-encoder")


@rule("C23|C32", "ensemble-predict", "EnsembleClassifier: probabilities are asked of the members if and only if the metric needs them, predict gives the decoded label with the highest average, predict_proba the average")
def ens_predict(ctx):
    for name in ("predict", "predict_proba"):
        q = EC + "." + name
        r = ctx.run(q, self_cls=EC, opaque=(MEAN,))
        means = [e for e in r.events if e.kind == "call" and e.callee == MEAN]
        if not means:
            ctx.unk(fwhere(r), "average of the members not found")
            continue
        for need in (True, False):
            act = [e for e in means if on(e.guards, {RP: need}) is not False]
            if len(act) != 1 or on(act[0].guards, {RP: need}) is None:
                ctx.unk(fwhere(r), "case not recognised")
                continue
            e = act[0]
            m = e.kw("predict_method", 1)
            try:
                mv = fold(m, {RP: need}) if m is not None else "predict"
            except CantFold:
                mv = None
            want = "predict_proba" if need else "predict"
            ctx.decide(None if mv is None else mv == want, e.where(), f"{name}: members give " + ("probabilities" if need else "labels"), f"{name}-{need}")
            x = e.kw("X", 0)
            ctx.decide(True if x is P(r, "X", 0) else None if x is None or vague(x) else False, e.where(), f"{name}: of the given data", "data")
            for ret in r.returns():
                if ret.fn != q or on(ret.guards, {RP: need}) is False:
                    continue
                dec = [x for x in walk(ret.value) if is_call(x, ".inverse_transform") or is_call(x, ".argmax", "argmax")]
                hot = [x for x in dec if contains(x.args[0], lambda z: z is mk("attr", ME, "_one_hot_encoder"))]
                if name == "predict":
                    ctx.decide(True if hot else False if not dec and not vague(ret.value) else None, ret.where(), "predict: the average is decoded into labels", "decoded")
                else:
                    ctx.decide(not dec, ret.where(), "predict_proba: the average itself is given", "average")
    r = ctx.run(ER + ".predict", self_cls=ER, opaque=(MEAN,))
    for ret in r.returns():
        m = [e for e in r.events if e.kind == "call" and e.callee == MEAN and e.res is ret.value]
        ctx.decide(True if m and (m[0].kw("predict_method", 1) or const("predict")) is const("predict") else None if not m else False, ret.where(), "regression: the average prediction is given", "regressor")
