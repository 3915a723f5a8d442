"""Hyperparameters of search methods and post-processing (C28)."""
from __future__ import annotations

import ast
import re

from vp.check import rule
from vp.rules.api import fit_run, post_call, search_call
from vp.rules.util import *  # noqa: F401,F403
from vp.terms import ite, subst

BS = "gama.search_methods.base_search.BaseSearch"
BP = "gama.postprocessing.base_post_processing.BasePostProcessing"
BFE = "gama.postprocessing.ensemble.build_fit_ensemble"
ENS = "gama.postprocessing.ensemble.Ensemble"
ME = mk("param", "self")
H = mk("attr", ME, "_hyperparameters")
SETS = (None, 0, False, "", 7, 0.5)
DEF = "static default"


def method_of(ctx, c, name):
    return ctx.p.find_method(c, name)


def family(ctx):
    for b in (BS, BP):
        if not ctx.has(b + ".__init__"):
            continue
        c = ctx.p.cls(b)
        yield c
        seen, todo = set(), [c]
        while todo:
            for s in ctx.p.subclasses(todo.pop()):
                if s.qual not in seen and s.qual != b:
                    seen.add(s.qual)
                    todo.append(s)
                    yield s


ABSENT = const("<no entry>")


def valued(sgs, key):
    """Term of the entry for `key` in a dictionary made of these parts, one each per hyperparameter; None if not of that form."""
    out = ABSENT
    for sg in sgs:
        if sg.op == "dict":
            v = valued(sg.args[0], key)
            if v is None:
                return None
            out = v
            continue
        if sg.op == "seg_pair" and sg.args[0].op == "const" and key.op == "const":
            out = sg.args[1] if sg.args[0] is key else out
            continue
        if sg.op != "seg_each" or sg.args[1] is not H or sg.args[3].op != "seg_pair":
            return None
        k, v = sg.args[3].args
        if k.op != "key" or k.args[0] is not H:
            return None
        g = band([subst(x, {k: key}) for x in sg.args[2]])
        out = ite(g, subst(v, {k: key}), out)
    return out


def lookup(t):
    """Lookups of a constant key in a dictionary with one entry per hyperparameter, replaced by the entry."""
    for _ in range(8):
        m = {}
        for x in walk(t):
            if x.op == "item" and x.args[1].op == "const" and x.args[0].op == "dict":
                v = valued(x.args[0].args[0], x.args[1])
                if v is not None:
                    m[x] = v
        if not m:
            return t
        t = subst(t, m)
    return t


def entry(k):
    return mk("item", H, k)


def value_in(t, k, s, d=DEF):
    """Value of t when the user set s for hyperparameter k and its default is d."""
    return fold(t, {entry(k): [s, d]})


def wins(t, k, d=DEF):
    """True / False / None and the situation: is t the set value, and the default when none was set?"""
    unk, cant = None, False
    for s in SETS:
        try:
            v = value_in(t, k, s, d)
        except CantFold:
            unk, cant = s, True
            continue
        want = d if s is None else s
        if not (v == want and type(v) is type(want)):
            return False, f"a set value of {s!r} gives {v!r}" if s is not None else f"nothing set gives {v!r}"
    return (None, f"set value {unk!r}") if cant else (True, "")


@rule("C28", "set-value-wins", "the value of a hyperparameter is the one that was set (also 0, False or empty), and its default only when none was set")
def precedence(ctx):
    seen = set()
    for c in family(ctx):
        m = method_of(ctx, c, "hyperparameters")
        if m is None or m.qual in seen:
            continue
        seen.add(m.qual)
        r = ctx.run(m.qual, self_cls=m.cls.qual)
        for e in r.returns():
            t = r.ex(e.value, e)
            if t.op != "dict":
                ctx.unk(e.where(), "hyperparameters: shape of the dictionary not known", "shape")
                continue
            k = mk("key", H, 0)
            v = valued(t.args[0], k)
            if v is None:
                ctx.unk(e.where(), "hyperparameters: not one entry per setting", "shape")
                continue
            for d in (DEF, None, 0):
                ok, why = wins(v, k, d)
                ctx.decide(ok, e.where(), f"a set value is in effect, and the default ({d!r}) only when none was set" + (f" ({why})" if why else ""), "precedence")


def writes(r):
    return [e for e in r.events if e.kind == "setitem" and (e.base is H or is_attr(e.base, "_hyperparameters"))]


def rows_terms(r):
    """Terms for the number of rows of the data in dynamic_defaults(x, y, ...)."""
    out = []
    for n in ("x", "y"):
        p = mk("param", n)
        out += [mk("len", p), mk("item", mk("attr", p, "shape"), const(0)), mk("attr", p, "size") if n == "y" else mk("len", p), mk("len", mk("attr", p, "index"))]
    return out


@rule("C28", "defaults-keep-set-value", "a dynamic default replaces the default of a hyperparameter and never the value that was set (except a maximum resource above the number of rows, which cannot be honoured)")
def dynamic(ctx):
    done = set()
    for c in family(ctx):
        for name, m in sorted({**{n: method_of(ctx, c, n) for n in ("_overwrite_hyperparameter_default", "dynamic_defaults")}, **{f.name: f for f in c.methods.values()}}.items()):
            if m is None or m.qual in done or name in ("__init__", "hyperparameters") or not any(isinstance(x, (ast.Attribute,)) and x.attr in ("_hyperparameters", "_overwrite_hyperparameter_default") for x in ast.walk(m.node)):
                continue
            done.add(m.qual)
            r = ctx.run(m.qual, self_cls=m.cls.qual)
            for e in r.events:
                if e.kind == "setattr" and e.name == "_hyperparameters" and e.base is ME:
                    ctx.unk(e.where(), f"{name}: the settings are replaced", "replaced")
                if e.kind == "mutate" and (e.base is H or is_attr(e.base, "_hyperparameters")):
                    ctx.unk(e.where(), f"{name}: the settings are changed", "mutated")
            for e in writes(r):
                k = e.name if not isinstance(e.name, str) else const(e.name)
                v = lookup(r.ex(e.value, e))
                rows = 100
                cap = k is const("maximum_resource")
                for s in (None, 0, 0.5, 1.0, 50, 99, 100, 101) if cap else SETS:
                    env = {entry(k): [s, DEF]}
                    for t in rows_terms(r):
                        env[t] = rows
                    if name == "_overwrite_hyperparameter_default" and len(r.fn.node.args.args) == 3:
                        env[mk("param", r.fn.node.args.args[2].arg)] = "another value"
                    if on(e.guards, env) is False:
                        ctx.ok(e.where(), f"{name}: a set value of {s!r} is left alone", "keeps")
                        continue
                    live = on(e.guards, env)
                    try:
                        new = fold(v, env)
                    except CantFold:
                        try:
                            new = [fold(mk("item", v, const(0)), env)]
                        except CantFold:
                            new = None
                            if v.op in ("tuple", "list") and v.args[0]:
                                try:
                                    x = v.args[0][0]
                                    new = [fold(x.args[0] if x.op == "seg_item" else x, env)]
                                except CantFold:
                                    # a value from elsewhere in the place of the set value
                                    x = x.args[0] if x.op == "seg_item" else x
                                    if s is not None and x.op == "param":
                                        new = ["another value"]
                    if new is None or not isinstance(new, list):
                        ctx.unk(e.where(), f"{name}: value written not known", "keeps")
                        continue
                    good = new[0] == s and type(new[0]) is type(s) or (cap and isinstance(s, (int, float)) and s is not False and s > rows and new[0] is None)
                    ctx.decide(True if good else False if live else None, e.where(), f"{name}: the set value stays when the default changes (set {s!r}, then {new[0]!r})", "keeps")
                    if name == "_overwrite_hyperparameter_default" and len(r.fn.node.args.args) == 3:
                        val = mk("param", r.fn.node.args.args[2].arg)
                        key = mk("param", r.fn.node.args.args[1].arg)
                        ctx.decide(k is key if k.op == "param" else None, e.where(), "the default of the named hyperparameter changes", "which")
                        if v.op == "tuple" and len(v.args[0]) == 2:
                            x = v.args[0][1]
                            x = x.args[0] if x.op == "seg_item" else x
                            ctx.decide(x is val or (None if x.op == "ite" else False), e.where(), "the new default is stored as the default", "stored")


def documented(c, fn):
    """{parameter: documented default} from the docstrings of a class and its constructor."""
    out = {}
    for node in (c.node, fn.node):
        doc = ast.get_docstring(node) or ""
        for m in re.finditer(r"^\s*(\w+)\s*:[^\n]*\(default\s*=\s*([^)\n]*)\)", doc, re.M):
            try:
                out[m.group(1)] = ast.literal_eval(m.group(2).strip())
            except (ValueError, SyntaxError):
                pass
    return out


def ctor_defaults(fn):
    a = fn.node.args
    pos = a.posonlyargs + a.args
    out = {}
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        out[p.arg] = d
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            out[p.arg] = d
    names = [x.arg for x in pos + a.kwonlyargs if x.arg != "self"]
    vals = {}
    for n in names:
        if n in out:
            try:
                vals[n] = ast.literal_eval(out[n])
            except (ValueError, SyntaxError):
                pass
    return names, vals


def settings(ctx, c):
    """(run, where, {name: (set term, default term)}) of the constructor of class c."""
    m = method_of(ctx, c, "__init__")
    if m is None:
        return None
    r = ctx.run(m.qual, self_cls=c.qual)
    t = attr_at(r, None, ME, "_hyperparameters")
    if t is None:
        return None
    t = r.ex(t, None)
    if t.op != "dict":
        return None
    out = {}
    for s in t.args[0]:
        if s.op != "seg_pair" or s.args[0].op != "const":
            return None
        v = s.args[1]
        if v.op not in ("tuple", "list") or len(v.args[0]) != 2:
            return None
        a, b = (x.args[0] if x.op == "seg_item" else x for x in v.args[0])
        out[s.args[0].args[0]] = (a, b)
    return r, fwhere(r), out


# settings for which None means "no limit", as documented
NO_LIMIT = ("hillclimb_size", "max_models", "max_n_evaluations", "restart_callback")


@rule("C28", "settings-stored", "every constructor argument is kept as the set value of the hyperparameter of the same name, with the documented default")
def stored(ctx):
    for c in family(ctx):
        if c.qual in (BS, BP):
            continue
        st = settings(ctx, c)
        m = method_of(ctx, c, "__init__")
        if st is None:
            ctx.unk(c.qual, f"{c.node.name}: settings not known", "settings")
            continue
        r, w, hp = st
        names, dflt = ctor_defaults(m)
        docs = documented(c, m)
        for n in names:
            p = mk("param", n)
            if n not in hp:
                # other arguments are kept elsewhere
                a = attr_at(r, None, ME, n)
                if n == "time_fraction":
                    ctx.decide(True if a is p else None if a is None or vague(a) or a.op == "ite" else False, w, f"{c.node.name}: `{n}` is kept", f"kept:{n}")
                    if n in docs and n in dflt:
                        ctx.decide(docs[n] == dflt[n], w, f"{c.node.name}: `{n}` defaults to {docs[n]!r} as documented", f"default:{n}")
                elif n in docs:
                    ctx.decide(False if not vague(mk("tuple", tuple(x for v in hp.values() for x in v))) else None, w, f"{c.node.name}: argument `{n}` is a hyperparameter", f"kept:{n}")
                continue
            a, b = hp[n]
            for s in (0, False, 7, 0.5, "v"):
                try:
                    v = fold(a, {p: s})
                except CantFold:
                    other = [x for x in walk(a) if x.op == "param"]
                    ctx.decide(False if a.op == "param" and a is not p else None, w, f"{c.node.name}: `{n}`={s!r} is the set value" + (f" (it is `{show_(a)}`)" if other else ""), f"set:{n}")
                    break
                ctx.decide(v == s and type(v) is type(s), w, f"{c.node.name}: `{n}`={s!r} is the set value (it becomes {v!r})", f"set:{n}")
            if n in docs:
                try:
                    given = dflt.get(n)
                    v = fold(a, {p: given})
                    eff = v if v is not None else fold(b, {p: given})
                except CantFold:
                    ctx.unk(w, f"{c.node.name}: default of `{n}`", f"default:{n}")
                else:
                    ctx.decide(eff == docs[n] and (eff is None) == (docs[n] is None), w, f"{c.node.name}: `{n}` defaults to {docs[n]!r} as documented (it is {eff!r})", f"default:{n}")
            if n in NO_LIMIT:
                try:
                    v = fold(a, {p: None})
                    eff = v if v is not None else fold(b, {p: None})
                except CantFold:
                    ctx.unk(w, f"{c.node.name}: `{n}`=None", f"none:{n}")
                else:
                    ctx.decide(eff is None, w, f"{c.node.name}: `{n}`=None means no limit (it is {eff!r})", f"none:{n}")


def params(ctx, qual):
    f = ctx.p.func(qual)
    if f is None:
        return None, None
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if f.cls is not None and not f.is_static:
        names = names[1:]
    return names + [x.arg for x in a.kwonlyargs], a.kwarg is not None


def passed(e, names):
    """{parameter: term} and the starred arguments of a call to a function with these parameters."""
    out, star = {}, []
    for n, a in zip(names, e.args or ()):
        if a.op.startswith("star"):
            return None, None
        out[n] = a
    for k, v in e.kwargs or ():
        if k == "**":
            star.append(v)
        else:
            out[k] = v
    return out, star


def check_use(ctx, r, e, hp, names, rename, label):
    got, star = passed(e, names)
    if got is None:
        ctx.unk(e.where(), f"{label}: arguments not known", "use")
        return
    for k in hp:
        p = rename.get(k, k)
        if p in got:
            t = lookup(r.ex(got[p], e))
            ok, why = wins(t, const(k))
            if ok is None:
                # the value of another hyperparameter
                other = [x for x in walk(t) if x.op == "item" and x.args[0] is H and x.args[1].op == "const"]
                if (other and all(x.args[1] is not const(k) for x in other)) or t.op in ("const", "param") or t is NONE:
                    ok = False
            ctx.decide(ok, e.where(), f"{label}: `{p}` is the value of `{k}` in effect" + (f" ({why})" if why else ""), f"use:{k}")
            continue
        hit = None
        v = valued([r.ex(x, e) for x in star], const(k)) if star and p == k else None
        if v is not None:
            hit = wins(v, const(k))
        if hit:
            ctx.decide(hit[0], e.where(), f"{label}: `{p}` is the value of `{k}` in effect" + (f" ({hit[1]})" if hit[1] else ""), f"use:{k}")
        else:
            ctx.decide(None if star and not all(x.op == "seg_each" and x.args[1] is H for x in star) else False, e.where(), f"{label}: `{k}` is passed on", f"use:{k}")
        ctx.decide(p in names, e.where(), f"{label}: `{p}` is a parameter of the search procedure", f"param:{k}")


@rule("C28", "settings-used", "every hyperparameter's value in effect reaches the search procedure or the ensemble construction, under the parameter that is documented to use it")
def used(ctx):
    for c in family(ctx):
        if c.qual in (BS, BP):
            continue
        st = settings(ctx, c)
        if st is None or not st[2]:
            continue
        hp = st[2]
        if BS in [x.qual for x in ctx.p.mro(c)]:
            m = method_of(ctx, c, "search")
            fns = [f.qual for f in m.module.funcs.values() if f.cls is None] if hasattr(m.module, "funcs") else [f.qual for f in ctx.p.all_funcs() if f.module is m.module and f.cls is None and f.parent is None]
            r = ctx.run(m.qual, self_cls=c.qual, opaque=tuple(fns))
            sc = [e for e in r.events if e.kind == "call" and e.callee in fns and set(hp) & set(params(ctx, e.callee)[0] or ())]
            if not sc:
                ctx.unk(fwhere(r), f"{c.node.name}.search: search procedure not found", "use")
            for e in sc:
                check_use(ctx, r, e, hp, params(ctx, e.callee)[0], {}, f"{c.node.name}.search")
        elif ctx.has(BFE) and "hillclimb_size" in hp:
            m = method_of(ctx, c, "post_process")
            r = ctx.run(m.qual, self_cls=c.qual, opaque=(BFE,))
            sc = r.calls("build_fit_ensemble")
            if not sc:
                ctx.unk(fwhere(r), "post_process: ensemble construction not found", "use")
            extra = (params(ctx, ENS + ".__init__")[0] or []) if ctx.has(ENS + ".__init__") else []
            for e in sc:
                check_use(ctx, r, e, hp, params(ctx, BFE)[0] + extra, {"hillclimb_size": "downsample_to", "max_models": "use_top_n_only"}, f"{c.node.name}.post_process")


@rule("C28", "ensemble-settings", "the ensemble is built with the metric, library, size limits and number of models it was given")
def ens(ctx):
    r = ctx.run(BFE, opaque=(ENS + ".build_initial_ensemble", ENS + ".expand_ensemble", ENS + ".fit", ENS + ".__init__", ENS + "Classifier.__init__", ENS + "Regressor.__init__"))
    kw = r.fn.node.args.kwarg
    news = [e for e in r.events if e.kind in ("new", "call") and (e.callee.endswith(("EnsembleClassifier", "EnsembleRegressor")))]
    if not news:
        ctx.unk(fwhere(r), "construction of the ensemble not found", "new")
    for e in news:
        cq = next((c for c in (ENS + "Classifier", ENS + "Regressor") if e.callee.endswith(c.rsplit(".", 1)[1])), ENS)
        init = method_of(ctx, ctx.p.cls(cq), "__init__")
        d, star = passed(e, params(ctx, init.qual)[0])
        if d is None:
            ctx.unk(e.where(), "arguments of the ensemble", "new")
            continue
        for n, pos in (("metric", 4), ("evaluation_library", 5)):
            want = P(r, n, pos)
            t = d.get(n)
            ctx.decide(None if t is None else True if t is want else False if t.op == "param" and t is not want or t.op == "const" else None, e.where(), f"the ensemble uses the given {n}", f"new:{n}")
        for n in ("downsample_to", "use_top_n_only"):
            if n in d:
                p = [x for x in walk(d[n]) if x.op == "param"]
                ctx.decide(False if d[n].op == "const" or d[n] is NONE else True if d[n] is mk("param", n) else None, e.where(), f"the ensemble uses the given {n}", f"new:{n}")
            elif kw is not None:
                ok = any(s is mk("param", kw.arg) or s.op == "param" or contains(s, mk("param", kw.arg)) for s in star)
                ctx.decide(True if ok else False if not star else None, e.where(), f"the ensemble uses the given {n}", f"new:{n}")
    size = P(r, "ensemble_size", 2)
    tot = []
    for e in r.calls("expand_ensemble", "build_initial_ensemble"):
        a = list(e.args or ()) + [v for _, v in e.kwargs or ()]
        tot += [x for x in a if contains(x, size)]
    if size is not None:
        ctx.decide(True if tot else None, fwhere(r), "the number of models decides how far the ensemble grows", "size")


@rule("C28", "defaults-first", "dynamic defaults are determined before the search or post-processing that uses them, in every fit")
def first(ctx):
    r = fit_run(ctx)
    dd = [e for e in r.events if e.kind == "call" and e.callee == ".dynamic_defaults"]
    for label, attr, uses in (("search", "_search_method", search_call(r)), ("post-processing", "_post_processing", post_call(r))):
        if not uses:
            ctx.unk(fwhere(r), f"{label}: call not found", label)
        for u in uses:
            mine = [e for e in dd if e.base is u.base or is_attr(e.base, attr)]
            if not mine:
                ctx.decide(False if dd or not any(e.kind == "call" and "default" in e.callee for e in r.events) else None, u.where(), f"{label}: dynamic defaults are determined", label)
                continue
            before = [e for e in mine if e.seq < u.seq and all(g in u.guards for g in e.guards)]
            late = all(e.seq > u.seq for e in mine)
            ctx.decide(True if before else False if late else None, u.where(), f"{label}: dynamic defaults are determined before it starts", label)
            for e in before[:1]:
                if label == "search":
                    for n, pos in (("x", 0), ("y", 1)):
                        t = e.kw(n, pos)
                        ctx.decide(None if t is None else t is not NONE and t.op != "const", e.where(), f"search: dynamic defaults see the data ({n})", f"data:{n}")
