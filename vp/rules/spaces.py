"""The shipped search spaces and how they become primitives (C22)."""
from __future__ import annotations

import ast
import os

from vp.check import rule
from vp.conc import Broken, CantFold as Unknown, Klass, conc
from vp.consts import SITE, Array, Consts, Lam, Lib, Made, Unk
from vp.rules.cli import bindings
from vp.rules.util import *  # noqa: F401,F403
from vp.rules.util import P

SPACES = (("gama.configuration.classification", "clf_config", "classification"), ("gama.configuration.regression", "reg_config", "regression"))
PARSE = "gama.configuration.parser.pset_from_config"
_consts = {}


def consts(ctx):
    root = str(ctx.p.root)
    if root not in _consts:
        base = root if os.path.isdir(os.path.join(root, "gama")) else os.path.dirname(root)
        _consts.clear()
        _consts[root] = Consts([base] + SITE)
    return _consts[root]


def space(ctx, mod, name):
    c = consts(ctx)
    try:
        v = c.module(mod).get(name)
    except Unk as x:
        ctx.abort(f"{mod}: {x}")
    except (KeyError, TypeError, ValueError, IndexError, AttributeError) as x:
        ctx.abort(f"{mod}: {x}")
    if not isinstance(v, dict):
        ctx.abort(f"{name} not understood: {v}")
    return c, v


def line(c, mod, key):
    """Where an entry is given."""
    t = c.tree(mod)
    for n in ast.walk(t):
        if isinstance(n, ast.Dict):
            for k in n.keys:
                if isinstance(k, ast.Name) and k.id == str(key) or isinstance(k, ast.Constant) and k.value == key:
                    return f"{mod.replace('.', '/')}.py:{key}:{k.lineno}"
    return f"{mod.replace('.', '/')}.py:{key}"


def entries(ctx):
    for mod, name, task in SPACES:
        c, cfg = space(ctx, mod, name)
        for k, v in cfg.items():
            if isinstance(k, Lib):
                yield c, mod, task, cfg, k, v, line(c, mod, k.name)


@rule("C22", "algorithms", "the algorithms of the shipped search spaces exist in the installed libraries, are of a suitable kind and listed once")
def algorithms(ctx):
    found = {}
    for c, mod, task, cfg, k, v, w in entries(ctx):
        if k.kind == "missing":
            ctx.bad(w, f"NOT: {k.name} exists in {k.mod}", "exists:" + k.name)
            continue
        if k.kind != "class":
            ctx.decide(None if k.kind == "ext" else False, w, f"{k.name} is a class", "class:" + k.name)
            continue
        ctx.ok(w, f"{k.name} exists in {k.mod}", "exists:" + k.name)
        m, known = c.mro(k)
        names = {x.name for x in m}
        tr, cl, rg = "TransformerMixin" in names, "ClassifierMixin" in names, "RegressorMixin" in names
        other = rg if task == "classification" else cl
        fits = tr or (cl if task == "classification" else rg)
        ctx.decide(True if fits else False if other or known else None, w, f"{task}: {k.name} is a transformer or for {task}", f"kind:{task}:{k.name}",
                   "only for the other task" if other else "neither transformer nor predictor")
        found.setdefault(task, []).append((k.name, tr, not tr and fits))
    for task, fs in found.items():
        ctx.decide(any(p for _, _, p in fs), task, f"there are algorithms for {task}", "some:" + task)
        ctx.decide(any(t for _, t, _ in fs), task, f"there are preprocessing steps for {task}", "steps:" + task)
    for mod, name, task in SPACES:
        c, cfg = space(ctx, mod, name)
        d = [x for x in c.dups if x[0] == mod]
        for _, ln, key in d:
            ctx.bad(f"{mod.replace('.', '/')}.py:{name}:{ln}", f"NOT: {key} is given once, not overridden by a second entry", f"twice:{key}")
        if not d:
            ctx.ok(mod, f"{task}: no entry overrides another one", "twice")
        for k in cfg:
            if not isinstance(k, (str, Lib)):
                ctx.decide(None if isinstance(k, Unk) else False, mod, f"{k!r} is an algorithm or the name of a hyperparameter", f"key:{k!r}")


def values(cfg, name, vals):
    """(values, shared?) as the parser reads them; None if not known."""
    if isinstance(vals, list) and not isinstance(vals, Array) and not vals:
        s = cfg.get(name, KeyError)
        return (None if isinstance(s, Unk) else s if s is KeyError else list(s)), True
    if isinstance(vals, Unk) or isinstance(vals, (Made, Lam, Lib)):
        return None, False
    try:
        return list(vals), False
    except TypeError:
        return None, False


@rule("C22", "hyperparameters", "every algorithm accepts each hyperparameter listed for it, and each has a value")
def hyperparameters(ctx):
    for c, mod, task, cfg, k, v, w in entries(ctx):
        if isinstance(v, Unk) or not isinstance(v, dict):
            ctx.decide(None if isinstance(v, Unk) else False, w, f"{k.name} has a dictionary of hyperparameters", "dict:" + k.name)
            continue
        try:
            names, more, _ = c.signature(k) if k.kind == "class" else (None, True, None)
        except Unk:
            names, more = None, True
        for h, vals in v.items():
            if h == "param_check":
                ok = isinstance(vals, (list, tuple)) and vals and all(isinstance(x, (Lam, Lib)) for x in vals)
                ctx.decide(True if ok else None, w, f"{task}: the check of {k.name} is a function", f"check:{task}:{k.name}")
                continue
            ctx.decide(None if names is None else True if h in names else None if more else False, w, f"{task}: {k.name} accepts {h}", f"accepts:{task}:{k.name}:{h}")
            vs, shared = values(cfg, h, vals)
            if shared:
                ctx.decide(None if vs is None else vs is not KeyError, w, f"{task}: the shared values of {h} for {k.name} are given", f"shared:{task}:{k.name}:{h}")
                if vs is KeyError:
                    continue
            ctx.decide(None if vs is None else bool(vs), w, f"{task}: {k.name} has values for {h}", f"values:{task}:{k.name}:{h}")


def satisfies(v, con):
    """Does the value satisfy one constraint of scikit-learn's parameter validation? None: not known."""
    num = isinstance(v, (int, float))
    known = num or v is None or isinstance(v, (str, list, tuple, dict, set))
    fn = isinstance(v, (Lam,)) or isinstance(v, Lib) and v.kind in ("func", "class")
    if isinstance(con, Unk):
        return None
    if con is None:
        return v is None if known or fn else None
    if isinstance(con, str):
        if con == "boolean":
            return True if isinstance(v, bool) else None if v in (0, 1) and num else False if known or fn else None
        if con == "array-like":
            return isinstance(v, (list, tuple)) if known or fn else None
        if con == "no_validation":
            return True
        if con == "verbose":
            return True if num and not isinstance(v, float) else False if known else None
        return None
    if isinstance(con, Lib):
        if con.name == "callable":
            return True if fn else False if known else None
        t = {"str": str, "dict": dict, "list": list, "tuple": tuple, "int": int, "float": float, "bool": bool}.get(con.name) if con.mod == "builtins" else None
        if con.name == "Real":
            return num if known or fn else None
        if con.name == "Integral":
            return isinstance(v, int) if known or fn else None
        if t is not None and (known or fn):
            return isinstance(v, t)
        if t is None and known and con.mod.split(".")[0] not in ("builtins", "numbers", "collections", "typing", "abc"):
            return False          # an instance of a class of the library
        return None
    if isinstance(con, Made):
        n, a = con.f.name, con.args
        if n == "Hidden":
            return satisfies(v, a[0]) if a else None
        if n in ("StrOptions", "Options"):
            op = con.kw.get("options", a[-1] if a else None)
            if not isinstance(op, (set, frozenset, list, tuple)):
                return False if num and n == "StrOptions" else None
            if n == "Options":
                return None if not known else v in op
            return isinstance(v, str) and v in op if known or fn else None
        if n == "Interval":
            if len(a) < 3:
                return None
            kind = a[0].name if isinstance(a[0], Lib) else a[0]
            if kind not in ("Real", "Integral", "real_not_int", "RealNotInt"):
                return None
            if not known and not fn:
                return None
            if not num:
                return False
            if kind == "Integral" and not isinstance(v, int) or kind in ("real_not_int", "RealNotInt") and isinstance(v, int):
                return False
            lo, hi, cl = a[1], a[2], con.kw.get("closed", a[3] if len(a) > 3 else None)
            if not all(x is None or isinstance(x, (int, float)) for x in (lo, hi)):
                return None
            if lo is not None and (v < lo or v == lo and cl in ("right", "neither")):
                return False
            if hi is not None and (v > hi or v == hi and cl in ("left", "neither")):
                return False
            return True
        if n == "HasMethods":
            return False if known else None
    return None


@rule("C22", "values", "every value is one the algorithm's own validation accepts")
def accepted(ctx):
    for c, mod, task, cfg, k, v, w in entries(ctx):
        if k.kind != "class" or not isinstance(v, dict):
            continue
        try:
            cons = c.class_attr(k, "_parameter_constraints")
        except Unk as x:
            ctx.unk(w, f"{task}: what {k.name} accepts [{x}]", f"constraints:{task}:{k.name}")
            continue
        for h, vals in v.items():
            if h == "param_check":
                continue
            vs, shared = values(cfg, h, vals)
            if vs is None or vs is KeyError:
                continue
            cs = cons.get(h)
            if not isinstance(cs, (list, tuple)):
                ctx.unk(w, f"{task}: which values {k.name} accepts for {h}", f"value:{task}:{k.name}:{h}")
                continue
            bad = unk = None
            for x in vs:
                rs = [satisfies(x, q) for q in cs]
                if True in rs:
                    continue
                if None in rs:
                    unk = x
                else:
                    bad = x if bad is None else bad
            ctx.decide(False if bad is not None else None if unk is not None else True, w, f"{task}: {k.name} accepts all {len(vs)} values for {h}", f"value:{task}:{k.name}:{h}",
                       f"{h}={bad!r} is refused" if bad is not None else repr(unk) if unk is not None else "")


# Values that pass validation but make every fit fail in the installed scikit-learn:
#   LogisticRegression: linear_model/_logistic.py, _check_solver: dual=True needs solver="liblinear"
#   ElasticNetCV: linear_model/_coordinate_descent.py, _alpha_grid: l1_ratio=0 needs alphas
#   FeatureAgglomeration: distances between features can't be given as data, which has a row per sample
#   SelectFwe: no p-value is below 0, so that no feature remains
def useless(name, v, others):
    if name == ("LogisticRegression", "dual"):
        return v is True and "liblinear" not in others("solver", ["lbfgs"])
    if name == ("ElasticNetCV", "l1_ratio"):
        return v == 0 and others("alphas", None) is None
    if name[0] == "FeatureAgglomeration" and name[1] in ("affinity", "metric"):
        return v == "precomputed"
    if name == ("SelectFwe", "alpha"):
        return v == 0
    if name == ("LogisticRegression", "solver"):
        return v in ("newton-cg", "lbfgs", "sag", "newton-cholesky") and set(others("penalty", ["l2"])) <= {"l1", "elasticnet"} or v == "liblinear" and set(others("penalty", ["l2"])) <= {"elasticnet"}
    if name == ("LogisticRegression", "penalty"):
        s = set(others("solver", ["lbfgs"]))
        return v == "l1" and not s & {"liblinear", "saga"} or v == "elasticnet" and "saga" not in s
    if name == ("LinearSVC", "penalty"):
        return v == "l1" and (False not in others("dual", [True]) or "squared_hinge" not in others("loss", ["squared_hinge"]))
    if name == ("LinearSVC", "loss"):
        return v == "hinge" and (True not in others("dual", [True]) or "l2" not in others("penalty", ["l2"]))
    if name == ("LinearSVR", "dual"):
        return v is False and "squared_epsilon_insensitive" not in others("loss", ["epsilon_insensitive"])
    if name == ("LinearSVR", "loss"):
        return v == "epsilon_insensitive" and True not in others("dual", [True])
    if name == ("PCA", "svd_solver"):
        return v == "arpack" and others("n_components", None) is None
    return False


SCORES = {"classification": ("f_classif", "chi2", "mutual_info_classif"), "regression": ("f_regression", "mutual_info_regression", "r_regression")}


@rule("C22", "usable", "every value can be used together with some values of the other hyperparameters, and features are scored for the task")
def usable(ctx):
    for c, mod, task, cfg, k, v, w in entries(ctx):
        if not isinstance(v, dict):
            continue

        def others(n, default):
            if n not in v:
                return default
            x, _ = values(cfg, n, v[n])
            return [] if x is None or x is KeyError else x
        for h, vals in v.items():
            vs, _ = values(cfg, h, vals)
            if h == "param_check" or vs is None or vs is KeyError:
                continue
            bad = [x for x in vs if useless((k.name, h), x, others)]
            for x in bad:
                ctx.bad(w, f"NOT: {task}: {k.name} can be used with {h}={x!r}", f"unusable:{task}:{k.name}:{h}={x!r}")
            if not bad:
                ctx.ok(w, f"{task}: no value of {h} makes {k.name} fail always", f"unusable:{task}:{k.name}:{h}")
            if h == "score_func":
                wrong = [x for x in vs if isinstance(x, Lib) and x.name in SCORES["regression" if task == "classification" else "classification"]]
                right = all(isinstance(x, Lib) and x.name in SCORES[task] for x in vs)
                ctx.decide(False if wrong else True if right else None, w, f"{task}: {k.name} scores features for {task}", f"score:{task}:{k.name}", str(wrong[:1]))


# ---------------------------------------------------------------- the parser
T1, T2, CL, RG, BAD = (Klass("Scaler", ("TransformerMixin", "BaseEstimator")), Klass("Agglo", ("ClusterMixin", "TransformerMixin")), Klass("Tree", ("ClassifierMixin", "BaseEstimator")),
                       Klass("Ridge", ("RegressorMixin",)), Klass("Bag", ("BaseEstimator",)))
SAMPLE = {"alpha": [0.1, 0.5], Klass("Plain", ("ClassifierMixin",)): {}, T1: {"norm": ["l1", "l2"], "alpha": [], "copy": (True,)}, "depth": range(1, 4),
          T2: {"link": ["a", "b"], "param_check": [Lam(None)], "aff": {"e": None, "m": None}}, CL: {"depth": [], "alpha": [3.0, 4.0], "crit": ["gini"], "warm": [True, False], "beta": [1, 2]}, RG: {"alpha": [], "depth": []},
          Klass("Wide", ("TransformerMixin",)): {f"h{i}": [i] for i in range(12)}, Klass("Forest", ("ClassifierMixin",)): {f"p{i}": [i] for i in range(12)}, Klass("Boost", ("RegressorMixin",)): {f"q{i}": [i] for i in range(12)}}


def parse(r, config):
    """(primitive set, checks, error) that the parser makes of a configuration."""
    env0 = {mk("param", r.fn.node.args.args[0].arg): config}
    ret = [e for e in r.returns()]
    if len(ret) != 1:
        raise Unknown("returns")
    v = ret[0].value
    if v.op != "tuple" or len(v.args[0]) != 2:
        raise Unknown("result")
    pset, checks = v.args[0]
    out, chk = {}, {}
    newat = {e.base: e for e in r.events if e.kind == "new"}

    def obj(t, env):
        for x, _ in leaves(t):
            if x.op == "obj" and x in newat:
                break
        while t.op == "ite":
            t = t.args[1] if conc(t.args[0], env) else t.args[2]
        e = newat.get(t)
        if e is None:
            raise Unknown(t)
        n = e.callee.rsplit(".", 1)[-1]
        if n == "Terminal":
            names = ("value", "output", "identifier")
        elif n == "Primitive":
            names = ("input", "output", "identifier")
        else:
            raise Unknown(n)
        vals = []
        for i, m in enumerate(names):
            a = e.kw(m, i)
            if a is None:
                raise Unknown(m)
            a = conc(r.ex(a, e), env)
            vals.append(tuple(a) if m == "input" else a)
        return (n, *vals)

    def envs(e):
        for b in bindings_in(r, e, env0):
            yield {**env0, **b}

    error = None
    for e in r.events:
        if e.kind not in ("call", "mutate", "setitem", "raise", "delitem", "aug"):
            continue
        tgt = None
        if e.kind == "raise":
            tgt = "raise"
        elif e.kind == "setitem":
            tgt = "check" if e.base is checks else "pset" if e.base is pset else None
        elif e.kind == "delitem":
            if e.base in (pset, checks):
                raise Unknown("del")
        elif e.f is not None and e.f.op == "attr" or e.kind == "mutate":
            b = e.f.args[0] if e.f is not None and e.f.op == "attr" else e.base
            if b is not None and (b.op == "item" and b.args[0] is pset or is_call(b, ".setdefault", ".get") and b.args[0].args[0] is pset):
                tgt = "add"
            elif b in (pset, checks) and (e.f is None or e.f.args[1] not in ("setdefault", "get", "items", "keys", "values")):
                raise Unknown("change")
        if tgt is None:
            continue
        for env in envs(e):
            if not all(conc(g, env) for g in e.guards):
                continue
            if tgt == "raise":
                error = error or e
                continue
            if tgt == "check":
                chk[conc(e.name if not isinstance(e.name, str) else const(e.name), env)] = conc(r.ex(e.value, e), env)
            elif tgt == "pset":
                raise Unknown("assigned")
            else:
                b = e.f.args[0] if e.f is not None and e.f.op == "attr" else e.base
                m = e.f.args[1] if e.f is not None and e.f.op == "attr" else e.name
                key = conc(b.args[1] if b.op == "item" else b.args[1][0], env)
                a = e.args[0] if e.args else e.value
                if m == "append":
                    out.setdefault(key, []).append(obj(a, env))
                elif m == "extend":
                    sq = r.ex(a, e)
                    if sq.op not in ("list", "tuple"):
                        raise Unknown("extend")
                    for sg in sq.args[0]:
                        for en, t in each(sg, env):
                            out.setdefault(key, []).append(obj(t, en))
                else:
                    raise Unknown(m)
    return out, chk, error


def each(sg, env):
    if sg.op == "seg_item":
        yield env, sg.args[0]
    elif sg.op == "seg_each":
        lid, base, guards, el = sg.args
        v = conc(base, env)
        for i, x in enumerate(v):
            e2 = {**env, mk("idx", lid, base): i, mk("elem", base, lid): x}
            if isinstance(v, dict):
                e2[mk("key", base, lid)] = x
                e2[mk("item", base, mk("key", base, lid))] = v[x]
            if all(conc(g, e2) for g in guards):
                if el.op.startswith("seg_"):
                    yield from each(el, e2)
                else:
                    yield e2, el
    else:
        raise Unknown(sg)


def bindings_in(r, e, env0):
    out = [{}]
    lids = {c[1] for c in e.ctx if c[0] == "loop"}
    inner = {x for ev in r.events if ev is e or ev.kind == "new" for t in list(ev.guards) + list(ev.args or ()) + [v for _, v in ev.kwargs or ()] + [x for x in (ev.value, ev.name) if isinstance(x, Term)]
             for x in walk(t) if x.op == "elem" and len(x.args) > 1 and x.args[1] not in lids and r.it.loops.get(x.args[1], {}).get("kind") != "for"}
    for c in e.ctx:
        if c[0] != "loop":
            continue
        info = r.it.loops[c[1]]
        base = info.get("base", info.get("iter"))
        if base is None:
            raise Unknown(e)
        new = []
        for env in out:
            try:
                v = conc(r.it.expand(base, e.cont), {**env0, **env})
            except Broken:
                continue          # not reached: the guards of the loop do not hold
            if v is None or isinstance(v, (int, float, Klass, Lam)):
                continue
            for i, x in enumerate(v.items() if isinstance(v, dict) and info.get("kind") == "items" else v):
                b = {**env, mk("idx", c[1], base): i, mk("elem", base, c[1]): x}
                # a loop over a mapped or filtered sequence: its elements are named after the inner one
                b.update({y: x for y in inner if y.args[0] is base})
                if isinstance(v, dict):
                    b[mk("key", base, c[1])] = x
                    b[mk("item", base, mk("key", base, c[1]))] = v[x]
                new.append(b)
        out = new
    return out


@rule("C22", "parsed", "each algorithm becomes one primitive with exactly its hyperparameters, each value one terminal under its own name")
def parsed(ctx):
    r = ctx.run(PARSE)
    w = fwhere(r)
    try:
        out, chk, err = parse(r, SAMPLE)
    except Unknown as x:
        ctx.unk(w, f"what the parser makes of a configuration [{str(x)[:100]}]", "parsed")
        return
    except Broken as x:
        ctx.bad(w, f"NOT: a valid configuration can be parsed [{x}]", "parsed")
        return
    ctx.decide(err is None, err.where() if err else w, "a valid configuration is accepted", "accepted")
    prims = [p for v in out.values() for p in v if p[0] == "Primitive"]
    for k, hp in SAMPLE.items():
        if isinstance(k, str):
            got = out.get(k, [])
            want = [("Terminal", x, k, k) for x in hp]
            ctx.decide(sorted(got, key=repr) == sorted(want, key=repr), w, "each value of a shared hyperparameter is one terminal of it", f"shared:{k}", f"{got}"[:120])
            continue
        mine = [p for p in prims if p[3] == k]
        ctx.decide(len(mine) == 1, w, f"a {k.bases[0]} becomes one primitive", f"once:{k.name}", f"{len(mine)} of them")
        if len(mine) != 1:
            continue
        out_ = "data" if "TransformerMixin" in k.bases else "prediction"
        at = [q for q, v in out.items() if mine[0] in v]
        ctx.decide(mine[0][2] == out_ and at == [out_], w, f"a {k.bases[0]} gives {out_}", f"kind:{k.name}", f"it gives {mine[0][2]} under {at}")
        want = sorted(h if v == [] and isinstance(v, list) else f"{k.name}.{h}" for h, v in hp.items() if h != "param_check")
        ctx.decide(sorted(mine[0][1]) == want, w, "a primitive takes exactly the hyperparameters listed for it, shared ones under their common name", f"input:{k.name}", f"{mine[0][1]} instead of {want}")
        for h, v in hp.items():
            if h == "param_check":
                ctx.decide(not any(p for q, ps in out.items() for p in ps if "param_check" in (q, p[2])), w, "a check is no hyperparameter", "check")
                continue
            if isinstance(v, list) and not v:
                continue
            got = out.get(f"{k.name}.{h}", [])
            want = [("Terminal", x, h, f"{k.name}.{h}") for x in v]
            ctx.decide(sorted(got, key=repr) == sorted(want, key=repr), w, "each value of a hyperparameter is one terminal that sets it, for this algorithm only", f"own:{k.name}.{h}", f"{got} instead of {want}"[:200])
    n = sum(len(v) for v in out.values())
    want = sum(len(list(v)) for k, v in SAMPLE.items() if isinstance(k, str)) + sum(1 + sum(len(list(v)) for h, v in hp.items() if h != "param_check") for k, hp in SAMPLE.items() if not isinstance(k, str))
    ctx.decide(n == want, w, "nothing else is in the primitive set", "nothing-else", f"{n} instead of {want}")
    for bad, what in (({BAD: {}}, "an algorithm that is neither transformer nor predictor"), ({3: [1]}, "an entry that is neither algorithm nor name")):
        try:
            _, _, err = parse(r, bad)
            ctx.decide(err is not None, w, f"{what} is an error", "error:" + what)
        except (Unknown, Broken) as x:
            ctx.unk(w, f"{what} is an error [{str(x)[:80]}]", "error:" + what)


MERGE = "gama.configuration.parser.merge_configurations"


@rule("C22|C34", "merged", "two search spaces put together have every algorithm, hyperparameter and value of both (pipelines in a log are read back with the merged one)")
def merged(ctx):
    if not ctx.has(MERGE):
        return
    r = ctx.run(MERGE)
    c1, c2 = P(r, "c1", 0), P(r, "c2", 1)
    for e in r.returns():
        v = r.ex(e.value, e)
        for x in walk(v):
            if x.op == "seg_each" and x.args[1] is c1 and x.args[3].op == "seg_pair":
                own = x.args[3].args[0] is mk("key", c1, x.args[0])
                ctx.decide(False if x.args[2] else True if own else None, e.where(), "everything of the first is in the result", "first")
    for lid, L in r.it.loops.items():
        if L.get("base") is not None and contains(L["base"], lambda z: z is c2) and L.get("kind") != "comp":
            ctx.decide(not L.get("breaks"), fwhere(r), "everything of the second is looked at", "second")
    for e in r.events:
        if e.kind != "setitem":
            continue
        old = mk("item", e.base, e.name)
        news = [x for x in walk(mk("tuple", tuple(e.guards) + ((e.value,) if e.value is not None else ()))) if x.op == "item" and x.args[1] is e.name and x is not old and contains(x, lambda z: z is c2) and not contains(x.args[0], lambda z: z is e.base)]
        k = [x for x in (e.name,) if isinstance(x, Term) and x.op == "key"]
        if k and contains(k[0].args[0], lambda z: z is c2):
            news = [mk("item", k[0].args[0], k[0])] + news
        if not news or len(set(news)) != 1:
            ctx.unk(e.where(), "what is put in the result", "put")
            continue
        new = news[0]
        isin = mk("cmp", "in", e.name, e.base)
        v = r.ex(e.value, e)
        if neg(isin) in e.guards:
            ctx.decide(True if v is new else False if is_const(v) or altered(v, new) else None, e.where(), "what only the second has is taken from it", "only", show_(v))
            continue
        if isin not in e.guards:
            ctx.unk(e.where(), "what is put in the result", "put")
            continue
        dicts = any(g.op == "isinstance" and g.args[0] in (old, new) and contains(g.args[1], lambda z: z.op == "ext" and z.args[0] == "builtins.dict") for g in e.guards)
        for A, B in (({"a": 1, "b": 2}, {"b": 2, "c": 3}), ({"a": 1}, {})) if dicts else (([1, 2], [2, 3]), ([1, 2], [3, 4]), ([5], [5]), ([True, False], ["x"])):
            try:
                got = conc(v, {old: A, new: B, r.ex(old, e): A, r.ex(new, e): B})
                got = set(map(repr, got))
            except (Unknown, TypeError):
                ctx.unk(e.where(), "values of both are kept", "both")
                continue
            except Broken as x:
                ctx.bad(e.where(), f"NOT: values of both are kept [{x}]", "both")
                continue
            want = set(map(repr, list(A) + list(B)))
            ctx.decide(got == want, e.where(), "values of both are kept", "both", f"{sorted(got)} instead of {sorted(want)}")


@rule("C22", "used", "each task uses its own search space by default and the user's when given, without classifiers that can't give probabilities when these are needed")
def used(ctx):
    for cls, (mod, name, task) in (("gama.GamaClassifier.GamaClassifier", SPACES[0]), ("gama.GamaRegressor.GamaRegressor", SPACES[1])):
        r = ctx.run(cls + ".__init__", self_cls=cls, opaque=("gama.gama.Gama.__init__", "gama.utilities.metrics.scoring_to_metric"))
        sp = P(r, "search_space")
        up = [e for e in r.events if e.kind == "call" and e.callee.endswith("__init__") and "Gama" in e.callee]
        if len(up) != 1:
            ctx.unk(fwhere(r), "the search space used", "used:" + task)
            continue
        e = up[0]
        a = e.kw("search_space", None)
        a = dict(e.kwargs).get("search_space") or (e.args[1] if len(e.args) > 1 and e.args[0] is mk("param", "self") else None)
        if a is None:
            ctx.bad(e.where(), "NOT: the search space is passed on", "used:" + task)
            continue
        for given in (False, True):
            want_tail = "the user's" if given else "the shipped one"
            bad = unk = n = 0
            why = ""
            for t, facts in leaves(a):
                if holds(truth(sp), facts | {sp if given else neg(sp)} if isinstance(facts, set) else set(facts)) is (not given):
                    continue
                s = simplify(t, {sp if given else neg(sp)})
                for u, f2 in leaves(s):
                    src = r.ex(u, e)
                    base = u
                    if src.op == "dict" and src.args[0] and all(removal(x) for x in src.args[0][1:]) and src.args[0][0].op in ("seg_each", "seg_splice"):
                        base = src.args[0][0].args[1 if src.args[0][0].op == "seg_each" else 0]
                    while base.op in ("items", "keys"):
                        base = base.args[0]
                    for b, _ in leaves(simplify(base, {sp if given else neg(sp)})):
                        n += 1
                        ok = b is sp if given else is_space(b, name)
                        if ok is True:
                            continue
                        other = is_space(b, SPACES[1][1] if task == "classification" else SPACES[0][1]) is True or (given and is_space(b, name) is True) or (not given and b is sp)
                        bad, unk, why = bad + bool(other), unk + (not other), show_(b)
            ctx.decide(False if bad else None if unk or not n else True, e.where(), f"{task}: {want_tail} search space is used", f"used:{task}:{given}", why)
        if task == "classification":
            filtered(ctx, r, e, a)


def removal(s):
    """Does a part of a container remove entries?"""
    return s.op == "seg_each" and s.args[3].op == "seg_unknown" and s.args[3].args[0] == "del"


def is_space(t, name):
    if t.op in ("glob", "global", "ext", "const") and t.args and isinstance(t.args[0], str):
        return t.args[0].rsplit(".", 1)[-1] == name or (len(t.args) > 1 and t.args[1] == name)
    if any(isinstance(x, str) and x.rsplit(".", 1)[-1] == name for x in t.args):
        return True
    return None


def filtered(ctx, r, e, a):
    """Which entries a metric that needs probabilities leaves out."""
    segs = []
    for t, _ in leaves(a):
        d = r.ex(t, e)
        if d.op == "dict":
            segs += [s for s in d.args[0] if s.op == "seg_each"]
    if len(segs) != 1:
        ctx.unk(e.where(), "which algorithms are left out", "probabilities")
        return
    lid, base, guards, el = segs[0].args
    g = band(list(guards))
    if removal(segs[0]):
        g = neg(g)
    elif el.op != "seg_pair":
        ctx.unk(e.where(), "which algorithms are left out", "probabilities")
        return
    cases = [("a classifier without probabilities", True, True, False, False), ("a classifier with probabilities", True, True, True, True), ("a transformer", True, False, False, True),
             ("a shared hyperparameter", False, False, False, True)]
    for what, isc, sub, proba, keep in cases:
        env = {}
        for x in walk(g):
            if x.op == "call" or x.op == "pure":
                nm = x.args[0] if x.op == "pure" else x.args[0].args[0] if x.args[0].op == "ext" else ""
                nm = nm if isinstance(nm, str) else ""
                if nm.endswith("isclass"):
                    env[x] = isc
                elif nm.endswith("issubclass"):
                    of = x.args[1][1] if len(x.args[1]) > 1 else None
                    nm2 = of.args[0].rsplit(".", 1)[-1] if of is not None and of.op == "ext" else ""
                    env[x] = {"ClassifierMixin": sub, "TransformerMixin": isc and not sub}.get(nm2)
                    if env[x] is None:
                        del env[x]
                elif nm.endswith("hasattr"):
                    env[x] = proba if x.args[1][1] is const("predict_proba") else sub if x.args[1][1] is const("predict") else None
            elif x.op == "hasattr":
                nm = x.args[1].args[0] if isinstance(x.args[1], Term) else x.args[1]
                if nm in ("predict_proba", "predict"):
                    env[x] = proba if nm == "predict_proba" else sub
            elif x.op == "isinstance":
                q = x.args[1].args[0] if x.args[1].op == "ext" else ""
                if q in ("builtins.type", "builtins.str"):
                    env[x] = isc == (q == "builtins.type")
        env = {k: v for k, v in env.items() if v is not None}
        try:
            v = bool(conc(g, env))
        except (Unknown, Broken):
            v = None
        ctx.decide(None if v is None else v is keep, e.where(), f"when probabilities are needed, {what} is {'kept' if keep else 'left out'}", "probabilities:" + what)
    # exactly when one of the metrics needs probabilities
    sel = [(t, [r.ex(x, e) for x in f if not contains(x, lambda y: y is P(r, "search_space")) or about_probabilities(x)]) for t, f in leaves(a) if r.ex(t, e).op == "dict"]
    if not sel:
        return
    for vec in VECS:
        got = [False if False in vs else None if None in vs else True for vs in ([needs(x, vec) for x in f] for t, f in sel)]
        uncond = any(not f for t, f in sel)
        v = True if uncond or any(g is True for g in got) else None if None in got or not got else False
        what = " and ".join("one that needs probabilities" if b else "one that does not" for b in vec)
        ctx.decide(None if v is None else v is any(vec), e.where(), f"with metrics ({what}), algorithms without probabilities are {'left out' if any(vec) else 'kept'}",
                   "only-then:" + "".join("ny"[b] for b in vec))
