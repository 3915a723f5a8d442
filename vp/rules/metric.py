"""Metrics: direction and arguments (C13), kind of prediction and labels (C23), acceptance (C27)."""
from __future__ import annotations

from vp.check import rule
from vp.conc import Broken, CantFold as Unknown, conc
from vp.consts import Made, Unk
from vp.rules.spaces import consts
from vp.rules.util import *  # noqa: F401,F403
from vp.rules.util import P

M = "gama.utilities.metrics."
ME = mk("param", "self")
SC = mk("attr", ME, "scorer")


def scorer_attr(t, name):
    return t.op == "attr" and t.args[1] == name


@rule("C13", "metric-score", "a metric's score to maximise is the metric's function, with the metric's own arguments, times its sign")
def c13_metric(ctx):
    r0 = ctx.run(M + "Metric.__init__")
    sc = attr_at(r0, None, ME, "score")
    r = ctx.run(M + "Metric.maximizable_score", opaque=(M + "Metric.score",))
    fns, signs, args, kws, n = [], [], [], [], 0
    w = fwhere(r)
    for e in r.returns():
        for t, _ in leaves(r.ex(e.value, e)):
            n += 1
            w = e.where()
            signs.append(sign_of(t))
            calls = [x for x in walk(t) if x.op == "call"]
            for c in calls:
                f = c.args[0]
                via = f is mk("attr", ME, "score") or f.op == "bound" or is_call(c, "Metric.score")
                src = [x for x in (sc, f) if x is not None] if via else [f]
                if not any(contains(x, lambda y: scorer_attr(y, "_score_func")) for x in src) and not via:
                    continue
                fns.append(c)
                args.append(any(a.op == "star" and a.args[0] is P(r, "args") for a in c.args[1]))
                own = any(contains(x, lambda y: scorer_attr(y, "_kwargs")) for x in src + [v for _, v in c.args[2]])
                if via and not own and sc is None:
                    own = None
                kws.append(own)
    if not n or not fns:
        ctx.unk(w, "the score to maximise is not understood", "score")
        return
    ctx.decide(False if False in signs else None if None in signs else True, w, "the score is multiplied by the metric's sign once: higher is better", "sign")
    ctx.decide(False if False in kws else None if None in kws else True, w, "the metric's own arguments (such as the kind of average) are used", "arguments", show_(sc))
    ctx.decide(True if all(args) else None, w, "the arguments are passed on", "passed")


def sign_of(t):
    """Is a score multiplied by the sign of the metric: True, False (not, or wrongly), None (not understood)."""
    if t.op == "bin" and t.args[0] == "*":
        a, b = t.args[1:]
        for x, y in ((a, b), (b, a)):
            if x.op == "un" and x.args[0] in ("USub", "-"):
                v = sign_of(mk("bin", "*", x.args[1], y))
                return None if v is None else not v
        for x in (a, b):
            if (x.op == "abs" or is_call(x, "builtins.abs") or x.op == "pure" and x.args[0] == "abs") and contains(x, lambda y: scorer_attr(y, "_sign")):
                return False        # the sign of the sign is lost
        s = [scorer_attr(x, "_sign") for x in (a, b)]
        if s[0] != s[1]:
            o = b if s[0] else a
            return not contains(o, lambda y: scorer_attr(y, "_sign") or y.op == "un") if o.op == "call" else None
    if t.op == "un" and t.args[0] in ("USub", "-"):
        v = sign_of(t.args[1])
        return None if v is None else not v
    if not contains(t, lambda y: scorer_attr(y, "_sign")) and (t.op in ("call", "abs") or is_call(t, "builtins.abs") or (t.op == "pure" and t.args[0] == "abs")) and (t.op in ("abs", "pure") or is_call(t, "builtins.abs") or t.args[0] is mk("attr", ME, "score") or t.args[0].op == "bound"):
        return False
    return None


def order(r, e, t, n=0):
    """A sequence as (what is ordered, key, best first) when it is a sorted one; None when not understood."""
    t = r.ex(t, e)
    if n > 8:
        return None
    if t.op in ("list", "tuple") and len(t.args[0]) == 1:
        s = t.args[0][0]
        if s.op == "seg_splice":
            return order(r, e, s.args[0], n + 1)
        if s.op == "seg_each" and s.args[3].op == "elem" and not s.args[2]:
            return order(r, e, s.args[1], n + 1)
        return None
    if t.op == "rev":
        o = order(r, e, t.args[0], n + 1)
        return o and (o[0], o[1], not o[2])
    if t.op == "slice" and is_const(t.args[-1]) and cval(t.args[-1]) == -1:
        o = order(r, e, t.args[0], n + 1)
        return o and (o[0], o[1], not o[2])
    if t.op == "sorted" and is_const(t.args[2]):
        desc, key = bool(cval(t.args[2])), t.args[1]
        while key.op == "un" and key.args[0] in ("USub", "-"):
            key, desc = key.args[1], not desc
        return t.args[0], key, desc
    if t.op in ("attr", "param", "elem"):
        return t, NONE, None
    return None


@rule("C13", "best-first", "post-processing gets the final population ordered by fitness, the best first")
def c13_first(ctx):
    r = ctx.run("gama.gama.Gama.fit", opaque=("gama.gama.Gama._search_phase", "gama.data_formatting.format_x_y"))
    for e in [e for e in r.events if e.kind == "call" and e.callee == ".post_process"]:
        a = e.kw("selection", 3)
        o = order(r, e, a) if a is not None else None
        if o is None:
            ctx.unk(e.where(), "order of the final population", "order")
            continue
        base, key, desc = o
        pop = is_attr(base, "_final_pop")
        ok = desc and is_attr(key, "values") and contains(key, lambda z: is_attr(z, "fitness"))
        bad = desc is False or desc is None or (not contains(key, lambda z: is_attr(z, "fitness")) and not vague(key)) or (key.op == "item" and is_attr(key.args[0], "values"))
        ctx.decide(True if ok and pop else False if bad and pop else None, e.where(), "the final population is given best first", "order", show_(key))


@rule("C13", "best-model", "without an ensemble the model is the best pipeline, fitted on all data")
def c13_model(ctx):
    r = ctx.run("gama.postprocessing.best_fit.BestFitPostProcessing.post_process")
    sel = P(r, "selection", 3)
    for e in r.returns():
        for t, _ in leaves(r.ex(e.value, e)):
            if not is_call(t, ".fit"):
                ctx.unk(e.where(), "the model", "model")
                continue
            p = t.args[0].args[0]
            ind = p.args[0] if is_attr(p, "pipeline") else None
            if ind is not None and ind.op == "item" and is_const(ind.args[1]):
                ctx.decide(ind.args[0] is sel and cval(ind.args[1]) == 0 if ind.args[0] is sel else None, e.where(), "the first of the selection, the best, becomes the model", "first", show_(ind))
            else:
                alt = [cval(c) for c, _ in leaves(ind.args[1])] if ind is not None and ind.op == "item" and ind.args[0] is sel and all(is_const(c) for c, _ in leaves(ind.args[1])) else []
                ctx.decide(False if ind is not None and (ind.op == "min" or any(c != 0 for c in alt)) else None, e.where(), "the first of the selection, the best, becomes the model", "first", show_(p))
            a = list(t.args[1]) + [v for _, v in t.args[2]]
            alt = sum((altered(v, w) or [] for v, w in zip(a, (P(r, "x", 1), P(r, "y", 2)))), [])
            ctx.decide(True if len(a) == 2 and a[0] is P(r, "x", 1) and a[1] is P(r, "y", 2) else False if alt else None, e.where(), "it is fitted on the training data, all of it", "data", ", ".join(alt))


def known(ctx):
    """name -> (class of its scorer, sign) for the metrics of the package, read from scikit-learn."""
    c = consts(ctx)
    out = {}
    try:
        env = c.module("gama.utilities.metrics")
        sets = {k: env.get(k) for k in ("classification_metrics", "regression_metrics")}
    except (Unk, KeyError, TypeError, ValueError, IndexError, AttributeError) as x:
        ctx.abort(str(x))
    if not all(isinstance(v, (set, list, tuple, frozenset)) for v in sets.values()):
        ctx.abort("metrics not understood")
    try:
        sk = c.module("sklearn.metrics._scorer")
    except Exception as x:  # noqa: BLE001
        sk = {}
    table = sk.get("_SCORERS")
    if not isinstance(table, dict):
        table = sk.get("SCORERS")
    for task, names in sets.items():
        for n in names:
            v = table.get(n) if isinstance(table, dict) else None
            out[n] = (task, v if isinstance(v, Made) else None)
    return c, table, out


@rule("C27", "known-metrics", "the documented metrics are known, for the right task, and each known metric is one of scikit-learn's")
def c27_known(ctx):
    c, table, out = known(ctx)
    for n in ("roc_auc", "accuracy", "neg_log_loss"):
        ctx.decide(n in out and out[n][0].startswith("class"), M + "classification_metrics", f"{n} is a metric for classification", "known:" + n)
    for n in ("neg_mean_squared_error", "r2"):
        ctx.decide(n in out and out[n][0].startswith("regr"), M + "regression_metrics", f"{n} is a metric for regression", "known:" + n)
    if isinstance(table, dict):
        for n in sorted(out):
            ctx.decide(n in table or None, M + "all_metrics", f"scikit-learn has the metric {n}", "exists:" + n)


@rule("C23", "metric-kind", "a metric needs probabilities if and only if scikit-learn computes it from probabilities, or it is the area under the curve")
def c23_kind(ctx):
    c, table, out = known(ctx)
    r = ctx.run(M + "Metric.__init__")
    v = attr_at(r, None, ME, "requires_probabilities")
    if v is None:
        ctx.abort("which predictions a metric needs is not understood")
    name = attr_at(r, None, ME, "name")
    for n in sorted(out):
        made = out[n][1]
        if made is None:
            continue
        kind = made.f.name if hasattr(made.f, "name") else str(made.f)
        proba = kind.endswith("_ProbaScorer")
        env = {name: n} if name is not None else {}
        for x in walk(v):
            if x.op == "isinstance" and x.args[1].op == "ext":
                q = x.args[1].args[0].rsplit(".", 1)[-1]
                env[x] = q == kind or q == "_BaseScorer" or (q == "str" and False)
        try:
            got = bool(conc(v, env))
        except (Unknown, Broken):
            got = None
        want = proba or n == "roc_auc"
        ctx.decide(None if got is None else got is want, M + "Metric.__init__", f"{n} is computed from {'probabilities' if want else 'labels or values'}", "kind:" + n, show_(v))


@rule("C27", "each-metric", "a name, a metric, or each element of a collection in its order becomes a metric")
def c27_each(ctx):
    r = ctx.run(M + "scoring_to_metric", opaque=(M + "Metric.__init__",))
    s = P(r, "scoring", 0)
    for e in r.returns():
        seqs = seqnorm(r.ex(e.value, e))
        isstr = any(g.op == "isinstance" and g.args[0] is s and contains(g.args[1], lambda y: y.op == "ext" and y.args[0] == "builtins.str") for g in e.guards)
        ism = any(g.op == "isinstance" and g.args[0] is s and g.args[1].op == "cls" for g in e.guards)
        if not seqs or len(seqs) != 1:
            ctx.unk(e.where(), "each metric asked for is used", "each")
            continue
        k, g, b, el, rv = seqs[0]
        if k == "each":
            ok = b is s and not g and not rv
            wrong = (b.op in ("sl", "slice") or b.op == "item" or bool(g) or b.op == "set" or is_call(b, "set", "builtins.set") or rv) and contains(b, lambda y: y is s)
            ctx.decide(True if ok else False if wrong else None, e.where(), "each metric of a collection is used, in its order", "collection", show_(b))
            for t, f in leaves(el):
                was = any(x.op == "isinstance" and x.args[1].op == "cls" for x in f)
                ctx.decide(True if (t.op == "elem" if was else t.op == "obj") else False if is_const(t) else None, e.where(), "each element is used as it is, or becomes the metric of that name", "element:" + str(was), show_(t))
        else:
            t = el if el is not None else b
            moved = [z for z in walk(t) if (z.op in ("rev", "sorted") or is_call(z, "builtins.set", "set")) and contains(z, lambda y: y.op == "seg_each" and y.args[1] is s)]
            if moved and not isstr and not ism:
                ctx.bad(e.where(), "NOT: each metric of a collection is used, in its order", "collection")
                continue
            ctx.decide(True if (t.op == "obj" and isstr) or (t is s and ism) else False if is_const(t) or (t is s and isstr) else None, e.where(), "a single metric is used", "single", show_(t))
    r = ctx.run(M + "scoring_to_metric")
    s = P(r, "scoring", 0)
    for e in r.calls("get_scorer"):
        a = list(e.args) + [v for _, v in e.kwargs]
        ctx.decide(True if any(x is s or x.op == "elem" for x in a) else False if a and all(is_const(x) for x in a) else None, e.where(), "the metric is that of the given name", "name")


@rule("C23", "all-labels", "a metric that takes the possible labels gets each class in the training target once, before the search starts; no other does")
def c23_labels(ctx):
    F = "gama.GamaClassifier.GamaClassifier.fit"
    r = ctx.run(F, opaque=("gama.gama.Gama.fit", "gama.data_formatting.format_x_y", "gama.utilities.evaluation_library.EvaluationLibrary.determine_sample_indices"))
    up = [e for e in r.events if e.kind == "call" and e.callee == "gama.gama.Gama.fit"]
    if len(up) != 1:
        ctx.abort("fit of the base class not found")
    y = up[0].kw("y", 1) or (up[0].args[1] if len(up[0].args) > 1 else None)
    if y is None:
        ctx.abort("target not found")
    sets = []
    for e in r.events:
        if e.kind == "call" and e.callee == ".update" and e.f.op == "attr" and contains(e.f.args[0], lambda t: scorer_attr(t, "_kwargs")):
            v = dict(e.kwargs).get("labels")
            for a in e.args:
                d = r.ex(a, e)
                for s in d.args[0] if d.op == "dict" else ():
                    if s.op == "seg_pair" and s.args[0] is const("labels"):
                        v = s.args[1]
            sets.append((e, v))
        elif e.kind == "setitem" and contains(e.base, lambda t: scorer_attr(t, "_kwargs")) and e.name is const("labels"):
            sets.append((e, e.value))
    if not sets:
        seen = any(contains(t, lambda z: scorer_attr(z, "_kwargs") or z is const("labels")) for e in r.events for t in list(e.args or ()) + [e.value, e.f] if t is not None)
        ctx.decide(None if seen else False, fwhere(r), "metrics that take the labels get them", "given")
        return
    for e, v in sets:
        ctx.decide(e.seq < up[0].seq, e.where(), "the labels are known before the search starts", "before")
        ctx.decide(any(c[0] == "loop" for c in e.ctx) or None, e.where(), "for every metric", "every")
        takes = [g for g in e.guards if contains(g, lambda z: is_const(z, "labels"))]
        for has in (True, False):
            vs = []
            for g in takes:
                env = {x: has for x in walk(g) if x.op == "cmp" and x.args[0] == "in" and x.args[1] is const("labels")}
                try:
                    vs.append(bool(conc(g, env)))
                except (Unknown, Broken):
                    vs.append(None)
            got = False if False in vs else None if None in vs else True
            if not takes:
                got = True if not e.guards else None
            ctx.decide(None if got is None else got is has, e.where(), "a metric that takes the labels gets them" if has else "a metric that takes no labels gets none", f"takes:{has}")
        if v is None:
            ctx.unk(e.where(), "which labels are given", "labels")
            continue
        for facts in ({True: ()},):
            pass
        conds = [c for t, f in leaves(y) for c in f]
        base = conds[0] if conds else None
        for fs in ([{base}, {neg(base)}] if base is not None else [set()]):
            yy, vv = simplify(y, fs), simplify(v, fs)
            for t, _ in leaves(vv):
                src = None
                if is_call(t, "numpy.unique", "pandas.unique", "builtins.set", "builtins.frozenset"):
                    src = t.args[1][0] if t.args[1] else None
                elif is_call(t, ".unique"):
                    src = t.args[0].args[0]
                cut = None
                if t.op == "slice" or is_call(t, ".tolist") and t.args[0].args[0].op == "slice":
                    z = t if t.op == "slice" else t.args[0].args[0]
                    if is_call(z.args[0], "numpy.unique", "pandas.unique", ".unique") and (z.args[1] is not NONE or z.args[2] is not NONE):
                        cut = z
                if cut is not None:
                    d, why = False, "only some of the labels"
                elif t is yy:
                    d, why = False, "every sample's label, so labels are repeated"
                elif is_const(t):
                    d, why = False, "a constant"
                elif src is not None and simplify(src, fs) is yy:
                    d, why = True, ""
                elif src is not None and simplify(src, fs) is not yy and not vague(src):
                    s2 = simplify(src, fs)
                    # the unencoded target, while the search gets the encoded one
                    d, why = (False if contains(yy, lambda z: z is s2) and s2.op == "item" else None), show_(s2)
                else:
                    d, why = None, show_(t)
                ctx.decide(d, e.where(), "the labels are the classes of the target the search gets, each once", "labels", why)


SUB = (("gama.GamaClassifier.GamaClassifier", "classification"), ("gama.GamaRegressor.GamaRegressor", "regression"))


@rule("C27", "passed-on", "every setting given to GamaClassifier or GamaRegressor reaches the common constructor")
def c27_passed(ctx):
    for cls, task in SUB:
        r = ctx.run(cls + ".__init__", self_cls=cls, opaque=("gama.gama.Gama.__init__", M + "scoring_to_metric"))
        up = [e for e in r.events if e.kind == "call" and e.callee.endswith("__init__") and "Gama" in e.callee]
        if len(up) != 1:
            ctx.decide(False if not up and not r.calls(".__init__") else None, fwhere(r), f"{task}: the common constructor is called", "called:" + task)
            continue
        e = up[0]
        fwd(ctx, r, e, task)
        s = dict(e.kwargs).get("scoring")
        sc = P(r, "scoring")
        pos = [a for a in e.args if a is sc]
        ctx.decide(True if s is sc or pos else False if s is None or is_const(s) else None, e.where(), f"{task}: the metric asked for is passed on", "scoring:" + task, show_(s) if s is not None else "not given")


def fwd(ctx, r, e, task):
    """The rest of the arguments is passed on."""
    for name, tell in (("args", "positional"), ("kwargs", "named")):
        p = mk("param", name)
        if name == "args":
            got = any(a.op == "star" and a.args[0] is p for a in e.args)
            use = any(contains(a, lambda z: z is p) for a in e.args)
        else:
            got = any(k == "**" and v is p for k, v in e.kwargs)
            use = any(contains(v, lambda z: z is p) for _, v in e.kwargs)
            use = use or any(k == "**" for k, v in e.kwargs)
        declared = any(contains(x, lambda z: z is p) for ev in r.events for x in list(ev.args or ()) + [v for _, v in ev.kwargs or ()] if x is not None)
        has = star_param(r, name)
        if not has:
            continue
        ctx.decide(True if got else None if use or declared else False, e.where(), f"{task}: further {tell} arguments are passed on", f"{tell}:{task}")


def has_method(ctx, cls, name):
    c = ctx.p.cls(cls)
    f = c and ctx.p.find_method(c, name)
    return f is not None and getattr(f, "qual", "") == cls + "." + name


def star_param(r, name):
    a = r.fn.node.args
    v = a.vararg if name == "args" else a.kwarg
    return v is not None and v.arg == name


