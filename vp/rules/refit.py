"""C37: an instance can be fitted again; nothing of an earlier fit but its final population is used."""
from __future__ import annotations

import ast

from vp.check import rule
from vp.rules.api import FITOPQ, ME, post_call, search_call
from vp.rules.util import *  # noqa: F401,F403
from vp.rules.util import P

FITS = ("gama.gama.Gama.fit", "gama.GamaClassifier.GamaClassifier.fit")
LIBC = "gama.utilities.evaluation_library.EvaluationLibrary"
LIB = mk("attr", ME, "_evaluation_library")
OF_A_FIT = ("_x", "_y", "_inferred_dtypes", "_basic_encoding_pipeline", "_fixed_pipeline_extension", "model", "_label_encoder", "_time_manager")
LOG = ("debug", "info", "warning", "error", "exception", "log", "warn")


def fit(ctx, q):
    return ctx.run(q, opaque=FITOPQ)


def used(t, a):
    """Does t use the value attribute a had before this fit?"""
    old = mk("attr", ME, a)
    if t is old:
        return True
    if a == "_time_manager" and is_attr(t, "total_time", old):
        return False
    if a == "_metrics" and is_call(t, "copy.deepcopy", "copy.copy"):
        return False
    if t.op in ("hasattr", "isinstance"):
        return False
    if t.op == "ite":
        return used(t.args[1], a) or used(t.args[2], a)
    return any(used(x, a) for x in parts(t))


def parts(t):
    out, todo = [], list(t.args)
    while todo:
        x = todo.pop()
        if isinstance(x, Term):
            out.append(x)
        elif isinstance(x, (tuple, list)):
            todo.extend(x)
    return out


@rule("C37", "carried", "data, encodings, fixed steps, labels, time and model of a fit are made in this fit, never taken over from an earlier one")
def carried(ctx):
    for q in FITS:
        r = fit(ctx, q)
        ss = search_call(r) or post_call(r)
        if not ss:
            ctx.abort("search not found")
        for a in OF_A_FIT:
            writes = [e for e in r.events if e.kind == "setattr" and e.base is ME and e.name == a]
            if not writes:
                if a in ("_label_encoder", "_metrics"):
                    continue
                reads = [e for e in r.events if e.kind == "call" and e.callee.split(".")[-1] not in LOG and a != "model" and any(isinstance(v, Term) and used(v, a) for v in list(e.args or ()) + [v for _, v in e.kwargs or ()] + [e.base])]
                ctx.decide(False if reads else None, (reads or ss)[0].where(), f"{q.split('.')[-2]}: {a} is made in this fit", f"carried:{a}")
                continue
            bad = None
            v = attr_at(r, ss[0], ME, a)
            if v is not None and v.op == "ite" and any(x is mk("attr", ME, a) for x, _ in leaves(v)) and not vague(v.args[0]):
                ctx.decide(False, writes[0].where(), f"{q.split('.')[-2]}: {a} is made anew in every fit", f"carried:{a}", show_(v))
                continue
            for e in r.events:
                if e.kind not in ("call", "setattr", "return", "setitem", "mutate", "new"):
                    continue
                if e.kind == "call" and e.callee.split(".")[-1] in LOG:
                    continue
                if e.kind == "call" and e.callee.endswith(("Error", "Exception", "Warning")):
                    continue
                if e.kind == "setattr" and e.base is ME and e.name == a and e.value is mk("attr", ME, a):
                    continue
                vals = list(e.args or ()) + [v for _, v in e.kwargs or ()] + [x for x in (e.value, e.base) if isinstance(x, Term)]
                if any(isinstance(v, Term) and used(v, a) for v in vals):
                    bad = e
                    break
            ctx.decide(bad is None, bad.where() if bad else writes[0].where(), f"{q.split('.')[-2]}: {a} of an earlier fit is not used", f"carried:{a}", bad.callee if bad is not None and bad.kind == "call" else "")


def state(ctx):
    """Attributes of the library that its methods change."""
    c = ctx.p.cls(LIBC)
    if c is None:
        return None
    out, init = set(), set()
    for fn in [n for n in c.node.body if isinstance(n, ast.FunctionDef)]:
        tgt = init if fn.name == "__init__" else out
        me = fn.args.args[0].arg if fn.args.args else "self"

        def own(n):
            return n.attr if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me else None
        for n in ast.walk(fn):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for t in ts:
                for x in ([t] + (list(t.elts) if isinstance(t, (ast.Tuple, ast.List)) else [])):
                    if own(x):
                        tgt.add(own(x))
                    if isinstance(x, ast.Subscript) and own(x.value):
                        tgt.add(own(x.value))
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "add", "update", "pop", "remove", "clear") and own(n.func.value):
                    tgt.add(own(n.func.value))
                if isinstance(n.func, ast.Attribute) and n.func.attr.startswith("heap") or isinstance(n.func, ast.Name) and n.func.id.startswith("heap"):
                    if n.args and own(n.args[0]):
                        tgt.add(own(n.args[0]))
    return out & init


@rule("C37", "forgotten", "before the search, everything the library remembers of earlier fits is reset: evaluations, look-up table and sample")
def forgotten(ctx):
    names = state(ctx)
    if not names:
        ctx.abort("state of the library not found")
    for q in FITS:
        r = fit(ctx, q)
        ss = search_call(r)
        if not ss:
            ctx.abort("search not found")
        new = [e for e in r.events if e.kind == "setattr" and e.base is ME and e.name == "_evaluation_library" and e.seq < ss[0].seq]
        if new:
            ctx.unk(new[0].where(), "a new library is made in each fit: its connections are not followed")
            continue
        for a in sorted(names):
            old = mk("attr", LIB, a)
            sets = [e for e in r.events if e.kind == "setattr" and e.base is LIB and e.name == a and e.seq < ss[0].seq and isinstance(e.value, Term) and not contains(e.value, lambda x: x is old)]
            clr = [e for e in r.events if e.kind in ("call", "mutate", "delitem", "setslice", "setitem") and e.base is old and e.seq < ss[0].seq and (e.kind in ("delitem", "setslice") or str(e.callee if e.kind == "call" else e.name).endswith("clear"))]
            sure = [e for e in sets + clr if set(e.guards) <= set(ss[0].guards)]
            odd = [e for e in r.events if e.kind == "call" and e.seq < ss[0].seq and (e.base is LIB or any(x is LIB for x in e.args or ()))]
            v = attr_at(r, ss[0], LIB, a)
            if sure:
                ctx.ok(sure[0].where(), f"{q.split('.')[-2]}: {a} is reset before the search", "reset:" + a)
            elif sets or clr:
                left = v is not None and any(x is old for x, _ in leaves(v))
                ctx.decide(None if not (a == "_sample" and left) else False, (sets + clr)[0].where(), f"{q.split('.')[-2]}: {a} is always reset before the search", "reset:" + a)
            else:
                ctx.decide(None if odd else False, ss[0].where(), f"{q.split('.')[-2]}: {a} is reset before the search", "reset:" + a)
            if a == "_sample" and v is not None:
                ctx.decide(False if any(x is old for x, _ in leaves(v)) else True, ss[0].where(), f"{q.split('.')[-2]}: the sample of rows is not that of an earlier fit", "sample", show_(v))
        dr = [e for e in r.events if e.kind == "setattr" and e.base is LIB and e.name in names and e.seq < ss[0].seq]
        strat = [e for e in dr if isinstance(e.value, Term) and contains(e.value, lambda x: is_call(x, "StratifiedShuffleSplit"))]
        if q == FITS[1]:
            late = [e for e in dr if strat and e.seq > strat[-1].seq and set(e.guards) <= set(ss[0].guards) and e.name == strat[-1].name]
            ctx.decide(False if strat and late else True if strat else None, (late or strat or ss)[0].where(), "the stratified sample of a classification is not overwritten", "stratified")
        files = [e for e in r.events if e.kind == "call" and e.callee.split(".")[-1] in ("rmtree", "clear_cache") and e.seq < ss[0].seq]
        for e in [e for e in r.events if e.kind == "call" and e.seq < ss[0].seq and e.callee in ("os.remove", "os.unlink", "shutil.rmtree", "os.rmdir")]:
            t = e.args[0] if e.args else None
            g = [x for x in e.guards if is_call(x, "os.path.exists", "os.path.isfile", "os.path.isdir", ".exists", ".is_file")]
            tr = any(c[0] == "try" for c in e.ctx) or any(c[0] == "with" and is_call(r.it.withs[c[1]]["term"], "contextlib.suppress", "suppress") for c in e.ctx)
            ig = kwarg(e.res, "ignore_errors", 1) if isinstance(e.res, Term) and e.res.op == "call" else None
            ctx.decide(True if g or tr or ig is TRUE else (False if e.callee in ("os.remove", "os.unlink") and t is not None and contains(t, lambda x: is_attr(x, "_cache_file")) else None), e.where(),
                       "files of earlier evaluations may already have been cleaned up", "gone", show_(t) if t is not None else "")


@rule("C37", "directories", "fit makes the directories it writes to again: an earlier fit may have removed them")
def directories(ctx):
    for q in FITS:
        r = fit(ctx, q)
        ss = search_call(r)
        if not ss:
            ctx.abort("search not found")
        mks = [e for e in r.events if e.kind == "call" and e.callee in ("os.mkdir", "os.makedirs", ".mkdir") and e.seq < ss[0].seq]
        w = ss[0].where()
        if not mks:
            ctx.bad(w, f"{q.split('.')[-2]}: NOT: the directory of cached models exists when the search starts, also after an earlier fit removed it", "made")
            continue
        cache = mk("attr", LIB, "_cache")
        deep = []
        for e in mks:
            t = e.args[0] if e.args else e.base
            if t is None:
                continue
            kind = "cache" if contains(t, lambda x: x is cache) or contains(t, lambda x: x is const("cache")) else "out" if contains(t, lambda x: is_attr(x, "output_directory", ME)) else None
            ok = e.kw("exist_ok", 2) is TRUE or any(contains(g, lambda x: is_call(x, "os.path.exists", "os.path.isdir", ".exists", ".is_dir")) for g in e.guards) or any(c[0] == "try" for c in e.ctx)
            ctx.decide(True if ok else (False if kind else None), e.where(), "a directory that still exists is no error", "exists", show_(t))
            if kind == "out" or kind == "cache" and (e.callee == "os.makedirs" or e.kw("parents", 1) is TRUE):
                deep.append("out")
            if kind == "cache":
                deep.append("cache")
        ctx.decide(True if "cache" in deep else None, w, f"{q.split('.')[-2]}: the directory of cached models exists when the search starts", "cache")
        only_cache = [e for e in mks if e.callee == "os.mkdir"]
        ctx.decide(True if "out" in deep else (False if len(only_cache) == len(mks) and "cache" in deep and all((e.args and contains(e.args[0], lambda x: x is cache)) for e in mks) else None), w,
                   f"{q.split('.')[-2]}: the output directory exists when the search starts", "out")


@rule("C37", "left-out", "what is left out of the search space depends on the data of this fit only")
def left_out(ctx):
    PS = mk("attr", ME, "_pset")
    r = fit(ctx, FITS[0])
    ss = search_call(r)
    if not ss:
        ctx.abort("search not found")
    cuts = [e for e in r.events if e.kind == "setitem" and e.base is PS and e.seq < ss[0].seq and e.guards]
    if not cuts:
        ctx.unk("Gama.fit", "nothing is left out of the search space")
    for e in cuts:
        back = [x for x in r.events if x.seq < e.seq and set(x.guards) <= set(e.guards) and (x.kind == "call" and x.base is PS and x.callee == ".update" or x.kind == "setitem" and x.base is PS or x.kind == "setattr" and x.base is ME and x.name == "_pset" or
                                                                           x.kind == "mutate" and x.base is PS)]
        own = isinstance(e.value, Term) and contains(r.ex(e.value, e), lambda x: x.op == "item" and x.args[0] is PS and x.args[1] is e.name)
        src = isinstance(e.value, Term) and contains(r.ex(e.value, e), lambda x: x.op == "attr" and x.args[0] is ME and x is not PS)
        ctx.decide(True if back else (False if own and not src else None), e.where(), "primitives left out because of the data of an earlier fit are put back first", "back:" + str(cval(e.name) if is_const(e.name) else "?"))


@rule("C37", "carried-steps", "pipelines taken over from an earlier fit are compiled with the fixed steps of this one")
def carried_steps(ctx):
    from vp.rules.start import applies, kind, phase
    _, ss = phase(ctx)
    r = ctx.run("gama.gama.Gama._search_phase", opaque=("gama.genetic_programming.operator_set.OperatorSet.individual",))
    ws, pop, e = P(r, "warm_start", 1), mk("attr", ME, "_final_pop"), ss[0]
    a = dict(e.kwargs).get("start_candidates") or (e.args[1] if len(e.args) > 1 else None)
    if a is None:
        ctx.unk(e.where(), "start candidates", "carried-steps")
        return
    here = [t for t, f in leaves(a) if all(applies(x, ws, None, pop, True) is True for x in f)]
    if len(here) != 1 or kind(r, e, here[0], ws, pop) != "earlier":
        ctx.unk(e.where(), "start candidates after an earlier fit", "carried-steps")
        return
    fr = fit(ctx, FITS[0])
    ops = mk("attr", ME, "_operator_set")
    # compiled by a function that looks the fixed steps up when it is called?
    late = [x for x in fr.events if x.kind == "setattr" and x.name == "_safe_compile"]
    sets = [(x, rr) for rr in (r, fr) for x in rr.events if x.kind == "setattr" and x.name == "_to_pipeline" and isinstance(x.base, Term) and contains(x.base, lambda y: y is pop)]
    news = [x for x in r.events + fr.events if x.kind == "new" and contains(x.res, lambda y: "Individual" in str(y.args[:1])) and x.ctx and any(c[0] == "loop" for c in x.ctx)]
    if not sets:
        ctx.decide(None if news or not late else False, e.where(), "pipelines of an earlier fit get the fixed steps of this fit", "carried-steps")
        return
    for x, rr in sets:
        v = rr.ex(x.value, x) if isinstance(x.value, Term) else None
        ok = None if v is None else True if contains(v, lambda y: y is mk("attr", ops, "_safe_compile") or is_attr(y, "_fixed_pipeline_extension") or is_call(y, "basic_pipeline_extension")) else \
            False if v is mk("attr", ops, "_compile") or v is NONE else None
        gs = [g for g in x.guards if applies(g, ws, None, pop, True) is not True] if rr is r else []
        ctx.decide(ok if not gs else None if ok else ok, x.where(), "pipelines of an earlier fit get the fixed steps of this fit", "carried-steps", show_(v) if v is not None else "")
        if rr is fr and late:
            ctx.decide(True if x.seq > late[-1].seq else False, x.where(), "the fixed steps of this fit are known by then", "carried-steps:order")
