"""How the constructor and fit connect the parts: library, directory, length without preprocessing, fixed steps, score, time after preprocessing."""
from __future__ import annotations

import ast

from vp.check import rule
from vp.rules.api import G, ME, fit_run, search_call
from vp.rules.constructor import OPQ, dirterm, ncond, numeric, raises, dead, settings
from vp.rules.util import *  # noqa: F401,F403
from vp.rules.util import P, foldb

ENS = "gama.postprocessing.ensemble.EnsemblePostProcessing"
GC = "gama.GamaClassifier.GamaClassifier."


def libraries(r):
    return [e for e in r.events if str(e.callee if e.kind == "call" else e.name if e.kind == "new" else "").endswith("EvaluationLibrary")]


@rule("C19", "library-configured", "Gama: the library of an ensemble keeps the configured number of models and predictions; that of other post-processing none")
def configured(ctx):
    pp = mk("param", "post_processing")
    given = neg(cmp_("is", pp, NONE))
    isens = mk("isinstance", pp, mk("cls", ENS))
    for label, r, ens in (
            ("preset simple", settings(ctx, preset="simple", post_processing=None), False),
            ("preset performance", settings(ctx, preset="performance", post_processing=None), True),
            ("an ensemble", ctx.run(G + "__init__", opaque=OPQ + (G + "cleanup",), facts=(given, isens)), True),
            ("other post-processing", ctx.run(G + "__init__", opaque=OPQ + (G + "cleanup",), facts=(given, neg(isens))), False)):
        news = libraries(r)
        if not news:
            ctx.unk("Gama.__init__", "creation of the library not found")
            continue
        live = [e for e in news if not any(g is FALSE for g in e.guards)]
        for e in live:
            star = any(k is None or k == "**" for k, _ in (e.kwargs or ())) or any(getattr(a, "op", "") == "star" for a in (e.args or ()))
            fam = [g for g in e.guards if contains(g, lambda x: x is pp or x.op == "isinstance") and not (g is given or g is isens or g is neg(isens))]
            for slot, pos, key, std in (("m", 0, "max_models", 200), ("n", 1, "hillclimb_size", 10000)):
                v = e.kw(slot, pos)
                if not ens and slot == "n":
                    continue
                w = f"{label}: " + ("the number of models kept is the ensemble's" if slot == "m" else "the number of predictions kept is the ensemble's") if ens else f"{label}: no models are kept"
                k = ("ens:" if ens else "none:") + slot + ":" + label.split()[-1]
                if v is None:
                    ctx.decide(None if star or fam else False, e.where(), w, k, f"{slot} is not given")
                    continue
                v = r.ex(v, e)
                if not ens:
                    ctx.decide(v is const(0) if is_const(v) and v is not NONE else (False if v is NONE and not fam else None), e.where(), w, k, show_(v))
                    continue
                if label == "preset performance":
                    ctx.decide(cval(v) == std if is_const(v) or v is NONE else None, e.where(), w, k, show_(v))
                    continue
                hp = [x for x in walk(v) if is_attr(x, "hyperparameters") or is_attr(x, "_hyperparameters")]
                names = {x.args[0] for x in walk(v) if x.op == "const" and isinstance(x.args[0], str)}
                if v.op == "item" and is_const(v.args[1]) and hp:
                    own = contains(v.args[0], lambda x: is_attr(x, "hyperparameters", pp) or is_attr(x, "_hyperparameters", pp))
                    ctx.decide(v.args[1] is const(key) if own else None, e.where(), w, k, show_(v))
                else:
                    ctx.decide(False if (is_const(v) or v is NONE) and not fam else False if hp and names and key not in names else None, e.where(), w, k, show_(v))


@rule("C27", "directory", "the output directory is the one named, with the user's home expanded; without a name it is a new, unique one; an empty directory is accepted")
def directory(ctx):
    for name in ("run", "~/run", "a/b"):
        r = settings(ctx, output_directory=name)
        v = attr_at(r, None, ME, "output_directory")
        if v is None:
            ctx.unk("Gama.__init__", "output directory not found")
            continue
        lv = [x for x, _ in leaves(v)]
        for x in lv:
            has = contains(x, lambda y: y is const(name))
            ctx.decide(True if has else None if vague(x) else False, "Gama.__init__", "a named output directory is used", "named", show_(x))
    r = settings(ctx, output_directory=None)
    v = attr_at(r, None, ME, "output_directory")
    for x in [x for x, _ in leaves(v)] if v is not None else ():
        uniq = contains(x, lambda y: y.op == "call" and not is_call(y, "os.path.abspath", "os.path.expanduser", "os.path.join", "os.getcwd", "os.path.realpath", "os.path.normpath", ".format", ".join"))
        ctx.decide(True if uniq else None if vague(x) else False, "Gama.__init__", "without a name a unique directory is made", "unique", show_(x))
    for store in ("nothing", "logs"):
        r = settings(ctx, store=store)
        d = dirterm(r)
        looks = [e.res for e in r.events if e.kind == "call" and e.callee == "os.listdir" and e.args and d and d(e.args[0])]
        ex = [e.res for e in r.events if e.kind == "call" and e.callee in ("os.path.exists", "os.path.isdir") and e.args and d and d(e.args[0])]
        for e in [e for e in r.events if e.kind == "raise"]:
            rel = [g for g in e.guards if contains(g, lambda x: x in looks or x in ex)]
            if not rel or rel[-1] is not e.guards[-1] or not any(contains(g, lambda x: x in looks) for g in rel):
                continue
            for label, env in (("empty directory", {**{x: True for x in ex}, **{x: [] for x in looks}}), ("new directory", {**{x: False for x in ex}, **{x: [] for x in looks}})):
                last = rel[-1]
                vs = [foldb(g, env) for g in rel]
                ctx.decide(True if False in vs else (False if all(x is True for x in vs) and last is e.guards[-1] else None), e.where(), f"an {label} is accepted" if label[0] == "e" else f"a {label} is accepted",
                           "accept:" + label.split()[0], show_(last))


@rule("C27", "no-preprocessing", "a search space without preprocessing means pipelines of length one; a greater maximum length is refused, any other is accepted")
def nopre(ctx):
    pset = None
    r0 = settings(ctx)
    ps = [e for e in r0.events if e.kind == "call" and is_call(e.res, "pset_from_config")]
    if len(ps) != 1:
        ctx.abort("search space not found")
    has = cmp_("in", const("data"), mk("item", ps[0].res, const(0)))
    if not any(contains(g, lambda x: x is has) for e in r0.events for g in e.guards):
        ctx.abort("test for preprocessing not recognised")
    for present in (True, False):
        for n in (None, 1, 2, 3, 10):
            r = ctx.run(G + "__init__", opaque=OPQ + (G + "cleanup",), overrides={"max_pipeline_length": const(n)}, facts=(has if present else neg(has),))
            ref = raises(ctx.run(G + "__init__", opaque=OPQ + (G + "cleanup",), overrides={"max_pipeline_length": const(1)}, facts=(has,)))
            refuse = not present and n is not None and n > 1
            sp = "with" if present else "without"
            if refuse:
                ctx.decide(True if dead(r) else (False if {w for w, _ in raises(r)} <= {w for w, _ in ref} else None), "Gama.__init__", f"maximum length {n} is refused {sp} preprocessing", f"refuse:{n}")
                continue
            ctx.decide(False if dead(r) else True, "Gama.__init__", f"maximum length {n} is accepted {sp} preprocessing", f"accept:{sp}:{n}")
            if dead(r):
                continue
            o = attr_at(r, None, ME, "_operator_set")
            for slot in ("_mutate", "_mate", "_create_new"):
                v = attr_at(r, None, o, slot) if o is not None else None
                m = dict(v.args[2]).get("max_length") if v is not None and v.op == "partial" else None
                if m is None:
                    ctx.unk("Gama.__init__", f"maximum length of {slot} not found")
                    continue
                if slot == "_create_new" and n is None and present:
                    ctx.decide(cval(m) >= 1 if is_const(m) and isinstance(cval(m), int) else (True if m is NONE else None), "Gama.__init__", "random pipelines have at least one step", "start-length", show_(m))
                    continue
                want = 1 if not present and n is None else n
                ctx.decide(cval(m) == want if is_const(m) or m is NONE else None, "Gama.__init__", f"{slot[1:]}: maximum length {n} {sp} preprocessing means {want}", f"length:{sp}:{n}:{slot}", show_(m))


@rule("C31", "compiler-used", "new individuals are compiled with the steps the data need once these are known")
def compiler_used(ctx):
    r = ctx.run("gama.genetic_programming.operator_set.OperatorSet.individual")
    new = [e for e in r.events if e.kind == "new" and e.callee.endswith(".Individual")]
    if not new:
        ctx.abort("new individual not recognised")
    safe, plain = mk("attr", ME, "_safe_compile"), mk("attr", ME, "_compile")
    for e in new:
        v = e.kw("to_pipeline", 1)
        if v is None:
            ctx.unk(e.where(), "compiler not recognised", "safe")
            continue
        got = simplify(v, {safe, plain, neg(cmp_("is", safe, NONE)), neg(cmp_("is", plain, NONE))})
        ctx.decide(True if got is safe else False if got is plain else None, e.where(), "a new individual is compiled with the steps this data needs", "safe", show_(got))


@rule("C31", "fixed-steps", "candidates are compiled with the steps that this fit's data need, set before the search starts")
def fixed(ctx):
    r = ctx.run(G + "fit", opaque=(G + "_search_phase", "gama.data_formatting.format_x_y", "gama.utilities.preprocessing.basic_encoding", "gama.utilities.preprocessing.basic_pipeline_extension"))
    sets = [e for e in r.events if e.kind == "setattr" and e.name == "_safe_compile"]
    ext = [e for e in r.events if e.kind == "call" and is_call(e.res, "basic_pipeline_extension")]
    enc = [e for e in r.events if e.kind == "call" and is_call(e.res, "basic_encoding")]
    srch = [e for e in r.events if e.kind == "call" and e.callee.endswith("_search_phase")]
    if not ext or not enc or not srch:
        ctx.abort("preparation not recognised")
    if not sets:
        ctx.unk("Gama.fit", "compiler of candidates not found")
    for e in sets:
        v = e.value
        ctx.decide(e.seq < srch[0].seq, e.where(), "the compiler is set before the search starts", "before")
        if v.op != "partial":
            ctx.decide(False if is_attr(v, "_compile") or v.op == "fn" else None, e.where(), "candidates are compiled with the fixed steps", "steps", show_(v))
            continue
        s = dict(v.args[2]).get("preprocessing_steps")
        if s is None:
            s = v.args[1][0] if v.args[1] else None
            if s is None:
                ctx.bad(e.where(), "candidates are compiled with the fixed steps: NOT", "steps")
                continue
        val = r.ex(s, e)
        ctx.decide(True if val is ext[-1].res else (False if is_const(val) or val.op in ("list", "tuple") and not val.args[0] or (is_attr(val, "_fixed_pipeline_extension") and e.seq < ext[-1].seq) else None), e.where(),
                   "the fixed steps are those made for this fit's data", "steps", show_(val))
    stored = [e for e in r.events if e.kind == "setattr" and e.name == "_fixed_pipeline_extension"]
    for e in stored:
        ctx.decide(True if e.value is ext[-1].res else (False if is_const(e.value) or e.value.op in ("list", "tuple") and not e.value.args[0] else None), e.where(), "the fixed steps are remembered for export", "stored", show_(e.value))
    for e in ext:
        a, c = e.kw("x", 0), e.kw("is_classification", 1)
        ctx.decide(True if a is not None and contains(a, lambda x: x is enc[-1].res) else (False if a is not None and contains(a, lambda x: is_call(x, "format_x_y")) and not vague(a) else None), e.where(),
                   "the fixed steps are chosen for the encoded data", "encoded", show_(a))
        b = enc[-1].kw("is_classification", 1)
        ctx.decide(True if c is not None and c is b else (False if c is not None and b is not None and (c is neg(b) or is_const(c) and not is_const(b)) else None), e.where(), "encoding and fixed steps are for the same task", "task", show_(c))
    for cls, want in (("gama.GamaClassifier.GamaClassifier", True), ("gama.GamaRegressor.GamaRegressor", False)):
        b = enc[-1].kw("is_classification", 1)
        n = None
        if b is not None and b.op == "hasattr" and is_const(b.args[1]):
            attr = b.args[1].args[0]
            sets_ = any(isinstance(x, ast.Attribute) and x.attr == attr for c in ctx.p.mro(ctx.p.cls(cls)) for x in ast.walk(c.node))
            n = sets_ == want
        ctx.decide(n, enc[-1].where(), f"{cls.split('.')[-1]}: the task is recognised", "recognised:" + cls[-9:], show_(b))


@rule("C23", "score", "score(): probabilities are predicted exactly when the first metric needs them, and judged by that metric against the given target")
def score(ctx):
    r = ctx.run(G + "score", opaque=(G + "predict", GC + "predict_proba"))
    x, y = P(r, "x"), P(r, "y")
    m0 = mk("item", mk("attr", ME, "_metrics"), const(0))
    first = [m0]
    rp = mk("attr", m0, "requires_probabilities")
    rets = r.returns()
    if not rets:
        ctx.abort("no result")
    for e in rets:
        for t, fs in leaves(r.ex(e.value, e)):
            if not is_call(t, ".score", ".maximizable_score", ".scorer"):
                ctx.unk(e.where(), "the score")
                continue
            met = t.args[0].args[0]
            ctx.decide(True if met is m0 else (False if met.op == "item" and met.args[0] is m0.args[0] and is_const(met.args[1]) and cval(met.args[1]) != 0 else None), e.where(), "the first metric is used", "first", show_(met))
            a = list(t.args[1])
            kw = dict(t.args[2])
            yt = kw.get("y", a[0] if a else None)
            pr = kw.get("predictions", a[1] if len(a) > 1 else None)
            if yt is None or pr is None:
                ctx.unk(e.where(), "arguments of the metric")
                continue
            ctx.decide(True if yt is y else (False if contains(yt, lambda z: is_call(z, "predict", "predict_proba", ".predict", ".predict_proba")) else None), e.where(), "the given target is the truth", "truth", show_(yt))
            for lf, f in leaves(pr, set(fs) | set(e.guards)):
                proba = True if is_call(lf, "predict_proba", ".predict_proba", "_predict_proba", "._predict_proba") else False if is_call(lf, "predict", ".predict", "_predict", "._predict") else None
                f = set(f)
                need = True if rp in f else False if neg(rp) in f else None
                if proba is None:
                    ctx.decide(False if lf is y or lf is x else None, e.where(), "the predictions of the model are judged", "judged", show_(lf))
                    continue
                if need is None:
                    oth = [g for g in f if contains(g, lambda z: is_attr(z, "requires_probabilities"))]
                    other = [z for g in oth for z in walk(g) if is_attr(z, "requires_probabilities") and z is not rp]
                    sure = len(oth) == 1 and other and other[0].args[0].op == "item" and other[0].args[0].args[0] is m0.args[0] and is_const(other[0].args[0].args[1])
                    ctx.decide(False if sure else None if oth or any(vague(g) for g in f) else False, e.where(), "what is predicted depends on what the metric needs", "needs", show_(lf))
                else:
                    ctx.decide(proba == need, e.where(), "probabilities are predicted exactly when the metric needs them", "needs", show_(lf))
                al = list(lf.args[1]) + [v for _, v in lf.args[2]]
                ctx.decide(True if al and (al[0] is x or is_call(al[0], "_prepare_for_prediction")) else None if not al or vague(al[0]) else al[0] is not y, e.where(), "the given data is predicted", "data")


@rule("C05", "overtime", "fit raises after preprocessing exactly when no time remains")
def overtime(ctx):
    r = fit_run(ctx)
    ss = search_call(r)
    rs = [e for e in r.events if e.kind == "raise" and ss and e.seq < ss[0].seq and not any(c[0] in ("handler",) for c in e.ctx)]
    if not ss:
        ctx.abort("search not found")
    n = 0
    for e in rs:
        for g in e.guards[-1:]:
            rd = [x for x in walk(g) if x.op == "call" and contains(x, lambda y: "total_time_remaining" in str(y.args[0]) if y.op in ("fn", "bound") and y.args else False) or is_attr(x, "total_time_remaining")]
            if not rd:
                continue
            n += 1
            t = max(rd, key=lambda x: len(list(walk(x))))
            for v, want in ((-5, True), (-0.001, True), (1, False), (30.5, False), (3600, False)):
                got = ncond(g, {t: v})
                ctx.decide(None if got is None else got == want, e.where(), f"{v} seconds left: " + ("an error says so" if want else "the search goes on"), f"remaining:{v}", show_(g))
    if not n:
        ctx.unk("Gama.fit", "test of the remaining time not recognised")


LEVELS = {"NOTSET": 0, "DEBUG": 10, "INFO": 20, "WARNING": 30, "WARN": 30, "ERROR": 40, "CRITICAL": 50, "FATAL": 50}


def level(t):
    if is_const(t) and isinstance(cval(t), int):
        return cval(t)
    if is_const(t) and isinstance(cval(t), str):
        return LEVELS.get(cval(t))
    if t.op == "ext" and t.args[0].startswith("logging."):
        return LEVELS.get(t.args[0].split(".")[-1])
    return None


@rule("C34", "log-written", "a kept log gets every line a report reads: its handler takes informational messages, has the format readers expect, and is attached to the package's logger")
def written(ctx):
    for store in ("logs", "all"):
        r = settings(ctx, store=store)
        fh = [e for e in r.events if e.kind in ("call", "new") and e.callee.endswith("logging.FileHandler")]
        if len(fh) != 1:
            ctx.unk("Gama.__init__", "log file not recognised")
            continue
        h = fh[0].res
        md = fh[0].kw("mode", 1)
        ctx.decide(cval(md) in ("a", "w", "x") if md is not None and is_const(md) else True if md is None else None, fh[0].where(), "the log is opened for writing", "mode")
        about = [e for e in r.events if e.kind == "call" and (e.base is h or any(a is h for a in e.args or ()))]
        unclear = [e for e in about if e.callee.split(".")[-1] not in ("setLevel", "setFormatter", "addHandler", "addFilter", "set_name")]
        add = [e for e in about if e.callee.endswith("addHandler")]
        ctx.decide(None if unclear else bool(add), fh[0].where(), "the log file is attached to a logger", "attached")
        for e in add:
            lg = e.base
            if not is_call(lg, "logging.getLogger"):
                ctx.unk(e.where(), "logger not recognised")
                continue
            a = lg.args[1][0] if lg.args[1] else kwarg(lg, "name")
            nm = cval(a) if a is not None and is_const(a) else ("" if a is None else None)
            ctx.decide(nm in ("gama", "", None) if isinstance(nm, str) or nm is None and (a is None or is_const(a)) else None, e.where(), "messages of all modules of the package reach the log", "logger", show_(a) if a is not None else "")
        for e in about:
            last = e.callee.split(".")[-1]
            if last == "setLevel" and e.args:
                lv = level(e.args[0])
                ctx.decide(None if lv is None else lv <= 20, e.where(), "informational messages are logged: settings and phases are", "level", show_(e.args[0]))
        fm = [e for e in about if e.callee.endswith("setFormatter")]
        ctx.decide(None if unclear else bool(fm), fh[0].where(), "lines of the log have the format reports read", "format")
        for e in fm:
            ctx.decide(True if e.args and is_call(e.args[0], "logging.Formatter") else None, e.where(), "lines of the log have the format reports read", "format")
    r = ctx.run("gama.logging.utility_functions.register_stream_log")
    for e in [e for e in r.events if e.kind == "call" and e.callee.endswith("setLevel") and is_call(e.base, "logging.getLogger")]:
        lv = level(e.args[0]) if e.args else None
        ctx.decide(None if lv is None else lv <= 20, e.where(), "console verbosity does not limit what the log file gets", "package-level", show_(e.args[0]) if e.args else "")
    pkg_level(ctx)


def pkg_level(ctx):
    """The level of the package's logger, as set when the package is imported."""
    from vp.rules.spaces import consts
    c = consts(ctx)
    found = 0
    for name, m in ctx.p.modules.items():
        loggers = {}
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func).endswith("getLogger"):
                a = s.value.args[0] if s.value.args else None
                nm = a.value if isinstance(a, ast.Constant) else name if isinstance(a, ast.Name) and a.id == "__name__" else None
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        loggers[t.id] = nm
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "setLevel":
                b = s.value.func.value
                nm = loggers.get(b.id) if isinstance(b, ast.Name) else b.args[0].value if isinstance(b, ast.Call) and b.args and isinstance(b.args[0], ast.Constant) else None
                if nm not in ("gama", "gama.gama", "gama.utilities", "gama.utilities.generic", "gama.utilities.generic.timekeeper"):
                    continue
                found += 1
                a = s.value.args[0]
                try:
                    v = c.ev(a, {}, name)
                except Exception:  # noqa: BLE001
                    v = None
                if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == "logging":
                    v = LEVELS.get(a.attr)
                v = LEVELS.get(v) if isinstance(v, str) else v
                ctx.decide(v <= 20 if isinstance(v, int) else None, f"{name.replace('.', '/')}:{s.lineno}", f"the logger {nm} passes informational messages on", "level:" + nm, str(v))
    if not found:
        calls = [n for m in ctx.p.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and n.attr in ("setLevel", "basicConfig", "dictConfig", "level")]
        other = [n for n in calls if "andler" not in ast.unparse(n.value) and "stopit" not in ast.unparse(n.value)]
        ctx.decide(None if other else False, "gama/logging/__init__.py", "the package's logger passes informational messages on", "level", "its level is never set, so only warnings are logged")
