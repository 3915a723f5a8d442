"""Evaluating one pipeline: failed results, folds, compilation."""
from __future__ import annotations

from vp.check import rule
from vp.rules.util import *  # noqa: F401,F403
from vp.rules.util import BROAD, P

SK = "gama.genetic_programming.compilers.scikitlearn."
EVP, EVI = SK + "evaluate_pipeline", SK + "evaluate_individual"
AE = "gama.utilities.generic.async_evaluator."
WORK = ("cross_validate", ".predict", ".predict_proba", "check_cv", ".split", ".fit", "cross_val_score",
        "cross_val_predict", ".fit_predict")


def neg_inf_per_metric(t, metrics):
    """True/False/None: is t a sequence of one -inf per metric?"""
    while t.op == "pure" and t.args[0] in ("tuple", "list") and len(t.args[1]) == 1:
        t = t.args[1][0]

    def ninf(x):
        if x.op == "const":
            return x.args[0] == float("-inf") if isinstance(x.args[0], (int, float)) else False
        if x.op == "un" and x.args[0] == "USub" and contains(x, lambda y: y.op == "attr" and y.args[1] == "inf"
                                                              or y.op == "ext" and y.args[0] == "numpy.inf"):
            return True
        return None

    if t.op == "repeat":
        s, n = t.args
        items = segs(s)
        if items is None or len(items) != 1 or items[0].op != "seg_item":
            return None
        if n is not mk("len", metrics):
            return False if n.op in ("const", "len") else None
        return ninf(items[0].args[0])
    items = segs(t)
    if items is not None:
        if len(items) == 1 and items[0].op == "seg_each":
            _, base, g, elem = items[0].args
            if base is metrics and not g:
                return ninf(elem)
            if is_call(base, "range") or base.op == "range":
                return ninf(elem) if contains(base, mk("len", metrics)) else False
        if all(i.op == "seg_item" for i in items):
            return False  # a fixed number of scores
    if contains(t, lambda x: is_call(x, "cross_validate")):
        return False
    if t is NONE:
        return False
    return None


@rule("C01|C13", "failure-tuple", "every way an evaluation can fail yields no predictions, no estimators, -inf for "
      "every metric and an error; an evaluation that completed yields no error")
def c01_tuple(ctx):
    r = ctx.run(EVP)
    metrics = P(r, "metrics", 4)
    n = 0
    for e in r.returns():
        v = r.ex(e.value, e)
        cases = excases(v, e.guards)
        if cases is None:
            ctx.unk(e.where(), "too many exceptional cases")
            continue
        inhandler = bool(in_ctx(e, "handler"))
        for facts, raised, t in cases:
            if t.op != "tuple" or len(t.args[0]) != 4:
                ctx.unk(e.where(), "result is not a 4-tuple")
                continue
            pred, scores, est, err = t.args[0]
            n += 1
            failed = bool(raised) or inhandler or any(g.op == "exc" for g in e.guards)
            if not failed:
                # success: error is None, scores are the cross-validation's
                ctx.decide(True if err is NONE else (False if nonnull(err) else None), e.where(),
                           "a completed evaluation reports no error", "success-error")
                continue
            what = "a failed or interrupted evaluation"
            nn = nonnull(err)
            ctx.decide(nn, e.where(), f"{what} reports its error", "err", show_(err))
            for x, nm in ((pred, "predictions"), (est, "estimators")):
                d = True if x is NONE else (None if x.op in ("unknown",) else False)
                ctx.decide(d, e.where(), f"{what} reports no {nm}", nm, show_(x))
            ctx.decide(neg_inf_per_metric(scores, metrics), e.where(),
                       f"{what} scores -inf on every metric", "scores", show_(scores))
    if not n:
        ctx.abort("no result tuple found")


@rule("C01", "work-is-guarded", "any exception of fitting, scoring or predicting is turned into a failed result")
def c01_guarded(ctx):
    r = ctx.run(EVP)
    ev = [e for e in r.calls(*WORK) if not in_ctx(e, "handler")]
    if not ev:
        ctx.abort("no evaluation work found")
    for e in ev:
        tids = [c[1] for c in e.ctx if c[0] == "try"]
        good = False
        for t in tids:
            hs = handler_types(r, t)
            for i, types in enumerate(hs):
                if catches(types, BROAD):
                    good = True
        # or: caught by calling function (context manager suppressing)?
        if not good and any(r.it.withs[c[1]]["name"].endswith("suppress") for c in e.ctx if c[0] == "with"):
            ctx.unk(e.where(), "work under contextlib.suppress")
            continue
        ctx.decide(good, e.where(), f"exceptions of {e.callee} become a failed result", e.callee)


@rule("C01", "cv-raises", "a fold that fails to fit or score fails the whole evaluation")
def c01_errscore(ctx):
    r = ctx.run(EVP)
    ev = r.calls("cross_validate", "cross_val_score")
    if not ev:
        ctx.abort("no cross_validate call")
    for e in ev:
        v = e.kw("error_score")
        if any(k == "**" for k, _ in e.kwargs):
            ctx.unk(e.where(), "keyword arguments not known")
            continue
        ctx.decide(True if v is not None and is_const(v, "raise") else (False if v is None or v.op == "const" or
                   contains(v, lambda x: "nan" in str(x.args[:1])) else None),
                   e.where(), "cross validation raises when a fold fails", "error_score", show_(v) if v else "default: nan")


@rule("C01|C13", "evaluation-record", "the evaluation record carries the outcome of the evaluation unchanged")
def c01_record(ctx):
    r = ctx.run(EVI)
    ep = P(r, "evaluate_pipeline", 1)
    calls = [e for e in r.events if e.kind == "call" and (e.f is ep or e.f is mk("param", "evaluate_pipeline"))]
    rets = r.returns()
    if len(calls) != 1 or not rets:
        ctx.abort("evaluation call not found")
    c = calls[0]
    out = c.res if isinstance(c.res, Term) else None
    for e in rets:
        obj = e.value
        if obj.op != "obj":
            ctx.unk(e.where(), "result is not an evaluation record")
            continue
        it = lambda i: mk("item", out, const(i))
        pred, sc, est, err = (e.heap.get((obj, n)) for n in ("_predictions", "score", "_estimators", "error"))
        for nm, v, i in (("predictions", pred, 0), ("estimators", est, 2)):
            if v is None:
                ctx.unk(e.where(), f"{nm} not set")
                continue
            ctx.decide(_same(v, it(i)), e.where(), f"{nm} are those of the evaluation", nm, show_(v))
        # score, with and without length
        add = P(r, "add_length_to_score", 4)
        for on in (True, False):
            v = simplify(sc, {add if on else neg(add)})
            want = it(1)
            if on:
                d = None
                if v.op == "bin" and v.args[0] == "+" and v.args[1] is want and v.args[2].op == "tuple":
                    x = v.args[2].args[0]
                    ln = mk("len", mk("attr", mk("param", "individual"), "primitives"))
                    d = len(x) == 1 and (x[0] is mk("un", "USub", ln) or None)
                    if len(x) == 1 and x[0] is ln:
                        d = False
                elif v is want or not contains(v, out):
                    d = False
                elif v.op == "ite":
                    # a failed evaluation is scored like any other: in each case the length is added
                    fails = cmp_("is", it(3), NONE)
                    for w in (simplify(v, {fails}), simplify(v, {neg(fails), it(3)})):
                        if w is want:
                            d = False
            else:
                d = _same(v, want)
            ctx.decide(d, e.where(), "score is the metric scores" + (" followed by minus the length" if on else ""),
                       f"score-{on}", show_(v))
        isnone = cmp_("is", it(3), NONE)
        for none in (True, False):
            v = simplify(err, {isnone} if none else {neg(isnone), it(3)})
            if none:
                ctx.decide(True if v is NONE else (False if nonnull(v) else None), e.where(),
                           "no error recorded when there was none", "error-none", show_(v))
            else:
                # the text of an exception can be empty
                ds = [True if x is it(3) else (False if x.op == "pure" and x.args[0] == "str" and x.args[1] and x.args[1][0] is it(3) else nonnull(x))
                      for x, _ in leaves(v, {neg(isnone), it(3)})]
                d = False if False in ds else (None if None in ds else True)
                ctx.decide(d, e.where(), "the error of a failed evaluation is recorded", "error-set", show_(v))
        # fitness holds the same scores
        ind = mk("param", "individual")
        fit = e.heap.get((ind, "fitness"))
        if fit is not None and fit.op == "obj":
            vals = e.heap.get((fit, "values"))
            ctx.decide(_same(vals, sc) if vals is not None else None, e.where(),
                       "the individual's fitness is the recorded score", "fitness", show_(vals) if vals else "")
        elif fit is None:
            ctx.bad(e.where(), "NOT: the individual gets a fitness", "fitness-set")


def _same(v, want):
    if v is want:
        return True
    if v.op == "pure" and v.args[0] in ("tuple", "list") and v.args[1] and v.args[1][0] is want:
        return True
    if vague(v) or v.op in ("ite", "call"):
        return None
    return False


@rule("C01", "future-outcome", "a call executed on a worker records either its result or its exception")
def c01_future(ctx):
    r = ctx.run(AE + "AsyncFuture.execute")
    me = mk("param", "self")
    fn = mk("attr", me, "fn")
    ev = [e for e in r.events if e.kind == "call" and e.f is fn]
    if len(ev) != 1:
        ctx.abort("call of the submitted function not found")
    e = ev[0]
    tids = [c[1] for c in e.ctx if c[0] == "try"]
    broad = [(t, i) for t in tids for i, ty in enumerate(handler_types(r, t)) if catches(ty, BROAD)]
    ctx.decide(bool(broad), e.where(), "exceptions of the submitted call are caught on the worker", "caught")
    res = r.state.heap.get((me, "result"))
    exc = r.state.heap.get((me, "exception"))
    if res is None:
        ctx.bad(e.where(), "NOT: the result of the call is recorded", "result")
    else:
        v = simplify(res, {neg(x) for x in excs(res)})
        ctx.decide(True if v is e.res else (None if vague(v) else False), e.where(), "the call's result is recorded", "result", show_(v))
    for t, i in broad:
        x = mk("exc", t, i)
        hs = [h for h in top(r, "setattr", "exception") if x in h.guards and h.base is me]
        ctx.decide(bool(hs) and all(nonnull(h.value) is not False for h in hs), e.where(),
                   "the exception of a failed call is recorded", "exception")
        # never re-raised
        rr = [h for h in top(r, "raise") if x in h.guards]
        ctx.decide(not rr, e.where(), "a failed call does not end the worker", "raise")


@rule("C01|C03", "memory-error", "when a worker runs out of memory the evaluation is handed back as failed")
def c01_memory(ctx):
    r = ctx.run(AE + "evaluator_daemon", opaque=(AE + "AsyncFuture.execute",))
    out = P(r, "output_queue", 1)
    puts = [e for e in r.events if e.kind == "call" and e.f.op == "attr" and e.f.args[0] is out and
            e.f.args[1] in ("put", "put_nowait")]
    ex = [e for e in r.calls(".execute")]
    if not puts or not ex:
        ctx.abort("worker loop not recognised")
    for s in [s for s in r.events if s.kind == "setattr" and s.name == "error" and s.value is NONE and s.seq > ex[0].seq]:
        ctx.bad(s.where(), "NOT: an evaluation that failed is handed back with its error", "error-kept")
    e = ex[0]
    tids = [c[1] for c in e.ctx if c[0] == "try"]
    mem = [(t, i) for t in tids for i, ty in enumerate(handler_types(r, t)) if catches(ty, BROAD | {"MemoryError"})]
    inner = [t for t in tids if any(catches(ty, BROAD | {"MemoryError"}) for ty in handler_types(r, t))]
    if not inner:
        ctx.bad(e.where(), "NOT: running out of memory on a worker is handled", "handled")
        return
    t = inner[-1]
    i = next(i for i, ty in enumerate(handler_types(r, t)) if catches(ty, BROAD | {"MemoryError"}))
    x = mk("exc", t, i)
    hp = [p for p in puts if x in p.guards]
    ctx.decide(bool(hp), e.where(), "after a MemoryError the future is still handed back", "put")
    for p in hp:
        sets = {s.name: s for s in top(r, "setattr") if x in s.guards and s.seq < p.seq}
        ctx.decide("result" in sets and sets["result"].value is NONE, p.where(),
                   "a future handed back after a MemoryError has no result", "result")
        ctx.decide("exception" in sets and nonnull(sets["exception"].value) is not False, p.where(),
                   "a future handed back after a MemoryError has an exception", "exception")


# ---------------------------------------------------------------- C09 folds
def _fold_ok(r, e, cv, cvcall):
    """cv argument -> list of (verdict, message)."""
    out = []
    for t, facts in leaves(cv, e.guards):
        t = r.ex(t, e)
        if is_call(t, "check_cv") or t.op == "param":
            out.append((True, "folds come from the cross-validation splitter"))
            continue
        if t.op == "const":
            out.append((False, "the requested folds are ignored: " + show_(t)))
            continue
        ss = seqnorm(t)
        if ss is None or t.op not in ("list", "tuple"):
            out.append((None, "splits not understood: " + show_(t)))
            continue
        for kind, g, base, elem, rev in ss:
            if kind == "splice" and is_call(base, ".split"):
                out.append((True, "folds come from the cross-validation splitter"))
                continue
            if kind != "each" or elem.op != "tuple" or len(elem.args[0]) != 2 or not is_call(base, ".split"):
                out.append((None, "splits not understood: " + show_(t)))
                continue
            tr, te = elem.args[0]
            fold = lambda z: is_elem(z, base)
            tt = [z for z in walk(elem) if is_item(z, 0, fold)]
            uu = [z for z in walk(elem) if is_item(z, 1, fold)]
            otr, ote = (tt or [mk("none0")])[0], (uu or [mk("none1")])[0]
            root = tr
            path = []
            while root.op == "item" and root is not otr and root is not ote:
                path.append(root.args[1])
                root = root.args[0]
            if root is otr:
                out.append((True, "training rows are selected from the fold's training rows"))
            elif is_call(root, ".choice", "random.sample", "choice") and root.args[1] and root.args[1][0] is otr:
                out.append((True, "training rows are sampled from the fold's training rows"))
            elif root is ote or contains(tr, ote) and not contains(tr, otr):
                out.append((False, "training rows are taken from the fold's test rows"))
            elif root.op == "next" or is_call(root, "next") or root.op == "elem":
                out.append((False, "positions within the fold are used as row numbers: " + show_(tr)))
            else:
                out.append((None, "training rows not understood: " + show_(tr)))
            if te is ote:
                out.append((True, "test rows are the fold's test rows"))
            elif contains(te, otr) and not contains(te, ote):
                out.append((False, "test rows are taken from the fold's training rows"))
            elif te.op in ("item", "slice") and te.args[0] is ote:
                out.append((False, "the test rows are subsampled"))
            else:
                out.append((None, "test rows not understood: " + show_(te)))
    return out


@rule("C09", "folds", "every model is scored only on rows it was not trained on, and on all rows of the fold")
def c09_folds(ctx):
    r = ctx.run(EVP)
    ev = r.calls("cross_validate")
    if not ev:
        ctx.abort("no cross_validate call")
    x, y = P(r, "x", 1), P(r, "y_train", 2)
    for e in ev:
        est, xx, yy, cv = e.kw("estimator", 0), e.kw("X", 1), e.kw("y", 2), e.kw("cv", 4)
        ctx.decide(_is(est, P(r, "pipeline", 0)), e.where(), "the pipeline itself is cross-validated", "estimator", show_(est))
        ctx.decide(_is(xx, x), e.where(), "all rows are cross-validated", "X", show_(xx))
        ctx.decide(_is(yy, y), e.where(), "all targets are used", "y", show_(yy))
        if cv is None:
            ctx.bad(e.where(), "NOT: the requested folds are used", "cv")
            continue
        for d, msg in _fold_ok(r, e, cv, e):
            ctx.decide(d, e.where(), msg if d is not False else "train and test rows of a fold are disjoint", "disjoint", msg)
        sc = e.kw("scoring", 3)
        _scoring(ctx, r, e, sc)


def _is(t, want):
    if t is want:
        return True
    if t is None:
        return False
    if vague(t):
        return None
    if contains(t, want) and t.op in ("call", "pure", "ite"):
        return None
    return False


def _scoring(ctx, r, e, sc):
    metrics = P(r, "metrics", 4)
    d = None
    if sc is None:
        d = False
    else:
        ss = segs(r.ex(sc, e))
        if ss and len(ss) == 1 and ss[0].op == "seg_each" and ss[0].args[1] is metrics and not ss[0].args[2]:
            pair = ss[0].args[3]
            if pair.op == "seg_pair":
                d = is_attr(pair.args[0], "name", lambda z: is_elem(z, metrics))
                if not is_elem(pair.args[1], metrics):
                    d = None if d and contains(pair.args[1], lambda z: is_elem(z, metrics)) else False
    ctx.decide(d, e.where(), "every metric is scored on every fold", "scoring", show_(sc) if sc is not None else "")


@rule("C09", "splitter", "the folds are the ones the user asked for, stratified for classification")
def c09_split(ctx):
    r = ctx.run(EVP)
    ev = r.calls("check_cv")
    for e in ev:
        cv, y, cl = e.kw("cv", 0), e.kw("y", 1), e.kw("classifier", 2)
        ctx.decide(_is(cv, P(r, "cv", 5)), e.where(), "the requested number of folds is used", "cv", show_(cv) if cv else "")
        d = False if cl is None or cl is FALSE else (True if is_call(cl, "is_classifier") else None)
        ctx.decide(d, e.where(), "folds are stratified when the pipeline is a classifier", "classifier")
        ctx.decide(False if y is None else _is(y, P(r, "y_train", 2)), e.where(), "stratification sees the targets", "y")
    for e in r.calls("StratifiedShuffleSplit", "ShuffleSplit"):
        rs = e.kw("random_state", 3)
        ctx.decide(False if rs is None or rs is NONE else (True if rs.op == "const" else None), e.where(),
                   "the subsample of a fold is the same for every pipeline", "random_state")
        ts = e.kw("train_size", 2)
        ctx.decide(False if ts is None else _is(ts, P(r, "subsample", 6)), e.where(),
                   "the requested subsample size is used for training", "train_size", show_(ts) if ts is not None else "")
    for e in r.calls("KFold", "StratifiedKFold", "RepeatedKFold", "train_test_split"):
        sh, rs = e.kw("shuffle"), e.kw("random_state")
        if sh is TRUE and (rs is None or rs is NONE):
            ctx.bad(e.where(), "NOT: every pipeline is evaluated on the same folds", "shuffle")
    if not ev:
        ctx.abort("no check_cv call")


@rule("C09", "subsample-when", "training folds are subsampled exactly when a smaller subsample was requested")
def c09_when(ctx):
    sub = mk("param", "subsample")
    n = mk("len", mk("param", "y_train"))
    isint = lambda v: mk("isinstance", sub, mk("ext", "builtins.int"))
    cases = [("no subsample", NONE, (), 0), ("fraction below 1", const(0.5), (), 1), ("fraction 1", const(1.0), (), 0),
             ("fewer rows than available", const(100), (cmp_("<", const(100), n),), 1),
             ("more rows than available", const(100), (neg(cmp_("<", const(100), n)),), 0)]
    for nm, v, facts, want in cases:
        r = ctx.run(EVP, overrides={"subsample": v}, facts=facts)
        ev = r.calls("StratifiedShuffleSplit", "ShuffleSplit")
        cvc = r.calls("cross_validate")
        if not cvc:
            ctx.abort("no cross_validate")
        cv = cvc[0].kw("cv", 4)
        kinds = {("sub" if r.ex(t, cvc[0]).op == "list" else "full") for t, _ in leaves(cv, cvc[0].guards)
                 if is_call(t, "check_cv") or r.ex(t, cvc[0]).op == "list"}
        if not kinds or len(kinds) > 1:
            ctx.unk(cvc[0].where(), f"{nm}: not decided")
            continue
        got = 1 if kinds == {"sub"} else 0
        ctx.decide(got == want, cvc[0].where(), f"{nm}: training folds are {'subsampled' if want else 'used fully'}", nm)


@rule("C09|C10", "out-of-fold", "validation predictions are made by the model of the fold for the fold's test rows, "
      "and stored at those rows")
def c09_oof(ctx):
    r = ctx.run(EVP)
    ret = [e for e in r.returns() if not in_ctx(e, "handler")]
    if not ret:
        ctx.abort("no return")
    cvc = r.calls("cross_validate")
    sets = [e for e in top(r, "setitem") if calls_in(e.value, ".predict", ".predict_proba")]
    preds = [e for e in r.calls(".predict", ".predict_proba")]
    if not sets or not cvc or not preds:
        ctx.abort("out-of-fold predictions not recognised")
    x, y = P(r, "x", 1), P(r, "y_train", 2)
    cvt = cvc[0].res
    cvarg = cvc[0].kw("cv", 4)

    def folds(t):
        """test rows term -> verdict"""
        if t.op != "item":
            return None
        if t.args[1] is const(0):
            return False if t.args[0].op == "elem" else None
        if t.args[1] is not const(1) or t.args[0].op not in ("elem", "item"):
            return None
        base = t.args[0].args[0]
        for u, _ in leaves(base):
            if u is cvarg or any(u is v for v, _ in leaves(cvarg)):
                continue
            if is_call(u, ".split"):
                sp = u.args[0].args[0]
                if any(sp is v for v, _ in leaves(cvarg)):
                    if u.args[1][:1] and u.args[1][0] is not x:
                        return None
                    continue
                return False if is_call(sp, "check_cv", "KFold", "StratifiedKFold") else None
            return None
        return True

    for e in sets:
        idx = e.name
        if idx.op == "tuple" and len(idx.args[0]) == 2 and idx.args[0][1].op == "sl":
            idx = idx.args[0][0]
        d = folds(idx)
        ctx.decide(d, e.where(), "predictions are stored at the fold's test rows", "index", show_(idx))
        for p in calls_in(e.value, ".predict", ".predict_proba"):
            a = p.args[1][0] if p.args[1] else NONE
            rows = None
            if a.op == "item" and a.args[0].op == "attr" and a.args[0].args[1] in ("iloc", "loc") and a.args[0].args[0] is x:
                rows = a.args[1]
                if rows.op == "tuple":
                    rows = rows.args[0][0]
                if a.args[0].args[1] == "loc":
                    ctx.bad(e.where(), "NOT: rows are selected by position", "loc")
            if rows is None:
                ctx.decide(False if a is x else None, e.where(), "only the fold's test rows are predicted", "rows", show_(a))
            else:
                ctx.decide(rows is idx if not vague(rows) else None, e.where(),
                           "the predicted rows are the rows the predictions are stored at", "rows", show_(rows))
            m = p.args[0].args[0]
            d = None
            if m.op in ("elem", "item"):
                b = m.args[0]
                if b is mk("item", cvt, const("estimator")):
                    d = True
                    if m.op == "elem" and idx.op == "item" and idx.args[0].op == "elem":
                        # both advance together: same loop
                        d = True
                    if m.op == "item" and m.args[1].op == "const":
                        d = False
            elif m is P(r, "pipeline", 0):
                d = False
            ctx.decide(d, e.where(), "each fold is predicted by the model trained without it", "model", show_(m))
    # the array has one row per training row
    for e in r.calls("numpy.empty", "numpy.zeros", "numpy.full"):
        sh = e.kw("shape", 0)
        for t, _ in leaves(sh):
            if t.op == "tuple":
                first = t.args[0][0]
                ok = first in (mk("len", y), mk("len", x)) or first is mk("item", mk("attr", x, "shape"), const(0)) or \
                    first is mk("item", mk("attr", y, "shape"), const(0))
                ctx.decide(True if ok else None, e.where(), "one prediction per row", "shape", show_(first))


@rule("C23", "validation-probabilities", "class probabilities are predicted exactly when a metric needs them")
def c23_eval(ctx):
    r = ctx.run(EVP)
    _proba(ctx, r, P(r, "metrics", 4), r.events)


def _proba(ctx, r, metrics, events):
    need = mk("any", mk("list", (mk("seg_each", 0, metrics, (), NONE),)))
    pp = [e for e in events if e.kind == "call" and e.callee == ".predict_proba"]
    pr = [e for e in events if e.kind == "call" and e.callee == ".predict"]
    conds = [g for e in pp + pr for g in e.guards for c in walk(g) if c.op == "attr" and c.args[1] == "requires_probabilities"]
    if not pp or not pr or not conds:
        ctx.abort("choice between probabilities and labels not recognised")
    for e in pp + pr:
        gs = [r.ex(g, e) for g in e.guards]
        gs = [g for g in gs if about_probabilities(g)]
        for vec in VECS:
            vs = [needs(g, vec) for g in gs]
            v = None if None in vs or not vs else all(vs)
            want = any(vec) is (e in pp)
            what = " and ".join("one that needs probabilities" if b else "one that does not" for b in vec)
            ctx.decide(None if v is None else v is want, e.where(), f"with metrics ({what}) {e.callee} is {'used' if want else 'not used'}", e.callee + ":" + "".join("ny"[b] for b in vec))


@rule("C13|C09", "scores", "the score on each metric is the mean over the folds, in the order of the metrics")
def scores(ctx):
    r = ctx.run(EVP)
    metrics = P(r, "metrics", 4)
    cvc = r.calls("cross_validate")
    n = 0
    for e in r.returns():
        v = r.ex(e.value, e)
        if v.op != "tuple" or in_ctx(e, "handler"):
            continue
        for facts, raised, t in excases(v, e.guards) or []:
            if raised or t.op != "tuple" or len(t.args[0]) != 4:
                continue
            sc = t.args[0][1]
            ss = seqnorm(sc)
            if ss is not None:
                ss = [mk("seg_each", 0, b, g2, el) if k == "each" else mk("seg_item", el or b)
                      for k, g2, b, el, _ in [(k, tuple(x for x in g if holds(x, facts) is not True), b, el, rv)
                                              for k, g, b, el, rv in ss if not any(holds(x, facts) is False for x in g)]]
            d = None
            if ss and len(ss) == 1 and ss[0].op == "seg_each":
                _, base, g, elem = ss[0].args
                if base is metrics and not g:
                    mean = elem.op == "call" and is_call(elem, "numpy.mean", ".mean", "statistics.mean", "numpy.average")
                    src = elem.args[1][0] if mean and elem.args[1] else (elem.args[0].args[0] if mean else None)
                    if mean and src.op == "item" and is_call(src.args[0], "cross_validate"):
                        k = src.args[1]
                        d = contains(k, lambda z: is_attr(z, "name", lambda w: is_elem(w, base))) and contains(k, lambda x: is_const(x, "test_"))
                        if contains(k, lambda x: x.op == "const" and isinstance(x.args[0], str) and
                                    x.args[0].startswith("train")):
                            d = False
                    elif mean and contains(src, lambda z: z.op == "item" and is_call(z.args[0], "cross_validate")) and (
                            src.op in ("abs", "un", "bin", "slice", "sorted", "set") or src.op == "pure" and src.args[0] in ("abs", "round", "set") or
                            src.op == "item" or is_call(src, "numpy.abs", "numpy.absolute", "numpy.round", "numpy.clip", "numpy.maximum",
                                                        "numpy.minimum", "numpy.nan_to_num", "numpy.unique", "numpy.square", "numpy.sqrt",
                                                        "numpy.negative", "numpy.sign", "numpy.floor", "numpy.ceil", "numpy.log", "numpy.exp")):
                        d = False
                    elif elem.op == "call" and is_call(elem, "numpy.max", "numpy.min", "numpy.median", "numpy.sum", "max", "min"):
                        d = False
                    elif elem.op in ("max", "min", "sum", "abs", "un"):
                        d = False
            n += 1
            ctx.decide(d, e.where(), "scores are the fold means, one per metric in order", "mean", show_(sc))
    if not n:
        ctx.abort("no successful result")


# ---------------------------------------------------------------- C31 compilation
@rule("C31", "steps", "the compiled pipeline runs the preprocessing steps and then every primitive, data end first")
def c31_steps(ctx):
    q = SK + "compile_individual"
    ind = mk("param", "individual")
    pre = mk("param", "preprocessing_steps")
    for given in (False, True):
        r = ctx.run(q, facts=(pre,) if given else (), overrides={} if given else {"preprocessing_steps": NONE})
        ev = [e for e in r.calls("Pipeline")]
        if not ev:
            ctx.abort("no Pipeline built")
        e = ev[-1]
        arg = r.ex(e.kw("steps", 0), e)
        sq = seqnorm(arg)
        if sq is None:
            ctx.unk(e.where(), "steps not understood: " + show_(arg))
            continue
        sq = [s for s in sq if not any(holds(g, r.state.guards) is False for g in s[1])]
        prim = [s for s in sq if s[0] == "each" and s[2] is mk("attr", ind, "primitives")]
        prep = [s for s in sq if s[0] == "splice" and s[2] is pre or s[0] == "each" and s[2] is pre]
        other = [s for s in sq if s not in prim and s not in prep]
        if other or len(prim) != 1:
            part = [s for s in other if s[0] in ("each", "splice") and s[2].op == "slice" and s[2].args[0] is mk("attr", ind, "primitives") and
                    any(is_const(x) and cval(x) not in (None, 0) for x in s[2].args[1:3])]
            ctx.decide(False if not prim and (not other or len(part) == 1 and len(other) == 1) else None, e.where(), "every primitive becomes a step", "prims", show_(arg))
            continue
        p = prim[0]
        extra = [g for g in p[1] if holds(g, r.state.guards) is not True]
        ctx.decide(False if extra else True, e.where(), "every primitive becomes a step", "prims", show_(arg))
        ctx.decide(p[4], e.where(), "primitives run data end first, predictor last", "order", show_(arg))
        if given:
            if len(prep) == 1:
                ok = sq.index(prep[0]) < sq.index(p)
                ctx.decide(ok, e.where(), "preprocessing runs before the primitives", "pre-first", show_(arg))
                ctx.decide(not prep[0][4], e.where(), "preprocessing steps run in the given order", "pre-order", show_(arg))
                lost = [g for g in prep[0][1] if holds(g, r.state.guards) is not True]
                ctx.decide((False if all(contains(g, lambda z: z.op == "len") and not contains(g, lambda z: z is pre) for g in lost) else None)
                           if lost else True, e.where(), "the preprocessing steps are part of the pipeline whatever its length", "pre-always", show_(arg))
            else:
                ctx.decide(False if not prep else None, e.where(), "preprocessing steps are part of the pipeline", "pre", show_(arg))
        el = p[3]
        isp = lambda z: is_elem(z, mk("attr", ind, "primitives"))
        if el.op == "tuple" and len(el.args[0]) == 2:
            est = el.args[0][1]
            ok = est.op == "call" and is_attr(est.args[0], "identifier", lambda z: is_attr(z, "_primitive", isp))
            if ok:
                kw = dict(est.args[2])
                d = None
                star = kw.get("**")
                if star is not None and not est.args[1]:
                    if star.op in ("dict",):
                        star = star.args[0][0] if len(star.args[0]) == 1 else star
                    if star.op == "seg_each" and is_attr(star.args[1], "_terminals", isp):
                        t = lambda z: is_elem(z, star.args[1])
                        pr = star.args[3]
                        d = not star.args[2] and pr.op == "seg_pair" and is_attr(pr.args[0], "output", t) and \
                            is_attr(pr.args[1], "value", t)
                    elif star.op == "seg_each" and star.args[1].op == "dict" and contains(star.args[1], lambda z: is_attr(z, "_terminals", isp)) and \
                            star.args[2] and all(contains(g, lambda z: z.op == "item" and z.args[0] is star.args[1]) for g in star.args[2]):
                        d = False   # hyperparameters with some values are left to the default of the estimator
                elif not est.args[1] and not est.args[2]:
                    d = False
                ctx.decide(d, e.where(), "each step is built with exactly the primitive's hyperparameter values", "hp", show_(est))
            else:
                ctx.unk(e.where(), "step estimator not understood " + show_(est))
            nm = el.args[0][0]
            ctx.decide(False if nm.op == "const" else (True if nm.op in ("pure", "fstr", "bin") else None), e.where(),
                       "steps have distinct names", "names", show_(nm))


@rule("C31|C07", "compiled-anew", "the pipeline of an individual is compiled from its steps as they are when it is asked for")
def c31_anew(ctx):
    r = ctx.run("gama.genetic_programming.components.individual.Individual.pipeline")
    me = mk("param", "self")
    n = 0
    for e in r.returns():
        for v, _ in leaves(r.ex(e.value, e), e.guards):
            n += 1
            d = None
            if v.op == "call" and is_attr(v.args[0], "_to_pipeline", lambda z: z is me):
                d = True if v.args[1] == (me,) and not v.args[2] else None
            elif v.op == "attr" and v.args[0] is me or v is NONE:
                d = False   # kept from an earlier time: mutation in place changes the steps
            ctx.decide(d, e.where(), "the pipeline is compiled from the individual", "anew", show_(v))
    if not n:
        ctx.abort("no pipeline returned")
