"""Prediction: same preparation as in training, original labels (C11)."""
from __future__ import annotations

import ast

from vp.check import rule
from vp.rules.api import ENC, EXT, FMT, G, ME, fit_run, post_call
from vp.rules.util import *  # noqa: F401,F403
from vp.rules.util import P
from vp.terms import subst

GC = "gama.GamaClassifier.GamaClassifier"
GR = "gama.GamaRegressor.GamaRegressor"
LOAD = "gama.data_loading.X_y_from_file"
MODEL = mk("attr", ME, "model")
PREDICT = (".predict", ".predict_proba")


def exp(r, e, f):
    """The fact with lists replaced by their contents."""
    env = {x: r.ex(x, e) for x in walk(f) if x.op == "listobj"}
    return subst(f, env) if env else f


def facts_of(t, guards=()):
    return [(l, set(f) | set(guards)) for l, f in leaves(t)]


def enc_attr(ctx):
    """The attribute fit stores the fitted encoding in, and the one for the encoded data."""
    r = fit_run(ctx)
    enc = [e for e in r.events if e.kind == "call" and e.callee == ENC]
    if len(enc) != 1:
        ctx.abort("encoding of the training data not found")
    pipe = [e for e in r.events if e.kind == "setattr" and e.base is ME and e.value is mk("item", enc[0].res, const(1))]
    data = [e for e in r.events if e.kind == "setattr" and e.base is ME and e.value is mk("item", enc[0].res, const(0))]
    return r, enc[0], pipe, data


def entries(ctx):
    """(qualified name, class) of every public method; inherited ones once per concrete class."""
    seen = set()
    for cls in (GC, GR):
        for owner in (cls, "gama.gama.Gama"):
            for f in ctx.p.all_funcs():
                if f.qual.rsplit(".", 1)[0] != owner:
                    continue
                n = f.qual.rsplit(".", 1)[1]
                if n.startswith("_") or n in ("fit", "fit_from_file", "cleanup", "export_script", "evaluation_completed") or (cls, n) in seen:
                    continue
                seen.add((cls, n))
                yield f.qual, cls


def peel(t, enc, facts, n=0, frame=None, refit=False):
    """[(facts, number of encodings, converted to a frame?, refit?, root)] of a model's input; root None if not recognised."""
    if t.op in ("ite", "choice"):
        out = []
        for leaf, f in leaves(t):
            fs = set(facts) | set(f)
            if leaf is t or any(neg(x) in fs for x in fs):
                continue
            out += peel(leaf, enc, fs, n, frame, refit)
        return out
    if t.op == "call" and is_call(t, ".transform", ".fit_transform") and t.args[0].op == "attr" and t.args[1]:
        if t.args[0].args[0] is not enc:
            return [(facts, n, frame, refit, None)]
        return peel(t.args[1][0], enc, facts, n + 1, frame, refit or t.args[0].args[1] != "transform")
    if is_call(t, "pandas.DataFrame") and t.args[1]:
        return peel(t.args[1][0], enc, facts, n, "ok" if n else "late", refit)
    if is_call(t, ".copy", ".astype", ".infer_objects", ".reset_index") and t.args[0].op == "attr":
        return peel(t.args[0].args[0], enc, facts, n, frame, refit)
    return [(facts, n, frame, refit, t)]


@rule("C11", "model-input", "everything a model predicts on went through the fitted encoding exactly once, as a frame")
def c11_input(ctx):
    _, _, pipe, _ = enc_attr(ctx)
    if len(pipe) != 1:
        ctx.abort("fitted encoding is not kept")
    ENCP = mk("attr", ME, pipe[0].name)
    found = 0
    for q, cls in entries(ctx):
        r = ctx.run(q, self_cls=cls, opaque=(LOAD,))
        name = f"{cls.rsplit('.', 1)[1]}.{q.rsplit('.', 1)[1]}"
        evs = [e for e in r.events if e.kind == "call" and e.callee in PREDICT and e.base is MODEL]
        for e in evs:
            found += 1
            a = e.kw("X", 0)
            if a is None:
                ctx.unk(e.where(), "no input")
                continue
            w = f"{e.where()} ({name})"
            for facts, n, frame, refit, root in peel(a, ENCP, set(e.guards)):
                if root is None or vague(root):
                    ctx.unk(w, "input of the model not recognised: " + show_(a))
                    continue
                none = neg(ENCP) in facts or cmp_("is", ENCP, NONE) in facts or any(f.op == "not" and f.args[0] is ENCP for f in facts)
                known = root.op == "param" or is_call(root, "X_y_from_file") or root.op == "item"
                if refit:
                    ctx.decide(False, w, "the encoding is not fitted again", "refit")
                if none:
                    ctx.decide(n == 0, w, "without an encoding the data is used as it is", "plain")
                else:
                    ctx.decide(True if n == 1 else (False if n > 1 or known else None), w, "the model's input is encoded exactly once", "encoded", f"{n} times")
                arr = [f for f in facts if f.op == "isinstance" and f.args[0] is root and contains(f, lambda x: x.op == "ext" and x.args[0].endswith("ndarray"))]
                if arr and n == 1:
                    ctx.decide(True if frame == "ok" else (False if frame is None else None), w, "arrays are turned into frames before they are encoded", "frame")
                unconv = n == 1 and frame is None and root.op == "param" and not any(contains(f, lambda x: x is root) for f in facts)
                if unconv:
                    ctx.decide(False, w, "arrays are turned into frames before they are encoded", "frame")
                src = root.op == "param" and root.args[0] not in ("self",) or root.op == "item" and root.args[1] is const(0) and is_call(root.args[0], "X_y_from_file")
                ctx.decide(True if src else (False if root.op == "item" and is_call(root.args[0], "X_y_from_file") else None), w, "the data predicted on is what the caller gave", "source", show_(root))
    if not found:
        ctx.abort("no use of the model found")


@rule("C11", "answers", "every prediction comes from the fitted model: without one it is an error")
def c11_answers(ctx):
    for q, cls in entries(ctx):
        r = ctx.run(q, self_cls=cls, opaque=(LOAD,))
        n = q.rsplit(".", 1)[1]
        if not (n.startswith("predict") or n.startswith("score")):
            continue
        for e in r.returns():
            v = e.value if e.value is not None else NONE
            for leaf, facts in facts_of(v, e.guards):
                if any(neg(f) in facts for f in facts):
                    continue
                m = contains(leaf, lambda x: x is MODEL)
                ctx.decide(True if m else (None if vague(leaf) or leaf.op == "call" and leaf.args[0].op != "ext" else False), e.where(), f"what {n} returns comes from the model", "model", show_(leaf))
        bad = [e for e in r.events if e.kind == "call" and e.callee in PREDICT and e.base is MODEL]
        if n.startswith("predict"):
            for e in r.returns():
                for leaf, facts in facts_of(e.value if e.value is not None else NONE, e.guards):
                    alt = altered(leaf, [x.res for x in bad])
                    if alt is not None:
                        ctx.decide(not alt, e.where(), f"what {n} returns is what the model predicted, unchanged", "unchanged", ", ".join(alt))
        for e in bad:
            tr = [t for c in in_ctx(e, "try") for t in handler_types(r, c[1])]
            ctx.decide(not any(t is None or any(x.split(".")[-1] in ("Exception", "BaseException", "AttributeError") for x in t) for t in tr) or None, e.where(), "errors of the model are not hidden", "hidden")


@rule("C11", "types", "arrays get the column types of the training data, as they were before encoding")
def c11_types(ctx):
    r, enc, pipe, _ = enc_attr(ctx)
    arg = enc.kw("x", 0)
    dts = [e for e in r.events if e.kind == "setattr" and e.base is ME and e.value is not None and e.value.op == "attr" and e.value.args[1] == "dtypes"]
    if len(dts) != 1:
        ctx.abort("types of the training data are not kept")
    d = dts[0]
    src = d.value.args[0]
    coded = contains(src, lambda x: x is enc.res)
    ctx.decide(True if src is arg else (False if coded else None), d.where(), "the types kept are those of the data before encoding", "before", show_(src))
    DT = mk("attr", ME, d.name)
    n = 0
    for q, cls in entries(ctx):
        if not q.rsplit(".", 1)[1] == "predict":
            continue
        r2 = ctx.run(q, self_cls=cls, opaque=(LOAD,))
        fr = [e for e in r2.events if e.kind == "call" and e.callee == "pandas.DataFrame"]
        if not fr:
            continue
        n += 1
        f = fr[0].res
        casts = [e for e in r2.events if e.kind == "call" and e.callee == ".astype"]
        if not casts:
            other = fr[0].kw("dtype", None) is not None or any(e.kind == "call" and e.callee in (".infer_objects", ".convert_dtypes", ".apply", "pandas.concat") for e in r2.events) or any(vague(e.base) for e in r2.events if e.base is not None)
            ctx.decide(None if other else False, fr[0].where(), "arrays get the types of the training data", "cast")
            continue
        for e in casts:
            t = e.args[0] if e.args else e.kw("dtype", 0)
            t = r2.ex(t, e) if t is not None and t.op in ("dictobj", "listobj") else t
            has = contains(t, lambda x: x is DT)
            other = [x for x in walk(t) if x.op == "attr" and x.args[1] == "dtypes"]
            ctx.decide(True if has else (False if other or is_const(t) else None), e.where(), "the types are those of the training data", "which", show_(t))
            for z in walk(t):
                if z.op == "seg_each" and z.args[1] is DT and z.args[2]:
                    ctx.decide(False if all(contains(g, lambda y: y.op == "elem" and y.args[0] is DT) and not vague(g) for g in z.args[2]) else None,
                               e.where(), "every column gets its type, whatever the type is", "all-types", show_(z.args[2][0]))
            lp = in_ctx(e, "loop")
            if lp and has and t.op == "elem":
                info = r2.it.loops[lp[-1][1]]
                whole = info.get("base") is DT
                ctx.decide(True if whole and not info.get("breaks") else (False if contains(info["base"], lambda x: x.op == "slice") else None), e.where(), "every column gets its type", "all")
                st = [x for x in r2.events if x.kind == "setitem" and x.value is e.res]
                if not st:
                    up = [x for x in r2.events if x.kind in ("setattr", "setitem", "call") and x.seq > e.seq and contains(mk("tuple", tuple(x.args or ()) + ((x.value,) if x.value is not None else ())), lambda y: y is e.res)]
                    ctx.decide(None if up else False, e.where(), "the converted column is kept", "kept")
                for x in st:
                    b = e.base
                    same = b.op == "item" and b.args[0] is x.base and b.args[1] is (x.name if not isinstance(x.name, str) else const(x.name))
                    ctx.decide(True if same else (False if b.op == "item" and b.args[0] is x.base and b.args[1].op in ("idx", "elem", "const") else None), x.where(), "each column keeps its own values", "own", show_(b))
                    k = x.name
                    if not isinstance(k, str):
                        aligned = k.op == "idx" and k.args[1] is DT
                        ctx.decide(True if aligned else (False if k.op == "bin" and contains(k, lambda y: y.op == "idx") else None), x.where(), "types and columns are matched by position", "position", show_(k))
                    own = [g for g in x.guards if contains(g, lambda y: is_elem(y, DT) or y.op == "elem" and y.args[0] is DT)]
                    for g in own[:1]:
                        ctx.decide(None if vague(g) else False, x.where(), "every column gets its type, whatever the type is", "all-types", show_(g))
    if not n:
        ctx.abort("conversion of arrays not found")


@rule("C11", "training", "model and stored encoding come from the same training data")
def c11_training(ctx):
    r, enc, pipe, data = enc_attr(ctx)
    fm = [e for e in r.events if e.kind == "call" and e.callee == FMT]
    if len(fm) == 1:
        x = enc.kw("x", 0)
        ctx.decide(True if x is mk("item", fm[0].res, const(0)) else (False if x is P(r, "x", 0) else None), enc.where(), "the formatted data is encoded", "formatted", show_(x))
    ctx.decide(len(pipe) == 1 or None, pipe[0].where() if pipe else enc.where(), "the fitted encoding is kept", "kept")
    for e in post_call(r):
        a, b = e.kw("x", 0), e.kw("y", 1)
        X = mk("item", enc.res, const(0))
        ctx.decide(True if a is X else (False if a is not None and (a is P(r, "x", 0) or len(fm) == 1 and a is mk("item", fm[0].res, const(0))) else None), e.where(), "the final model is fitted on the encoded data", "final", show_(a))
        if len(fm) == 1:
            ctx.decide(True if b is mk("item", fm[0].res, const(1)) else (False if b is P(r, "y", 1) else None), e.where(), "the final model is fitted on the formatted target", "target", show_(b))
    for p in pipe:
        m = attr_at(r, p, ME, "model")
        done = [e for e in r.events if e.kind == "setattr" and e.base is ME and e.name == "model" and e.seq < p.seq]
        pc = post_call(r)
        after = pc and p.seq > pc[0].seq
        before = [e for e in done if e.value is NONE and set(e.guards) <= set(p.guards)]
        ctx.decide(True if after or before else (False if not done else None), p.where(), "a model of an earlier fit is never used with the encoding of a later one", "stale")
    n = 0
    for f in ctx.p.all_funcs():
        for node in ast.walk(f.node):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("fit", "fit_transform", "set_params") and isinstance(node.func.value, ast.Attribute) and pipe and node.func.value.attr == pipe[0].name:
                ctx.decide(False, f"{f.qual}:{node.lineno}", "the stored encoding is never fitted again", "refit")
                n += 1
    if not n:
        ctx.ok(enc.where(), "the stored encoding is never fitted again")


@rule("C11", "labels", "labels are predicted in the values the user trained with")
def c11_labels(ctx):
    r = ctx.run(G + "predict", self_cls=GC)
    LE = mk("attr", ME, "_label_encoder")
    le = [e for e in r.events if e.kind == "call" and e.callee == ".inverse_transform"]
    raw = [e for e in r.events if e.kind == "call" and e.callee == ".predict" and e.base is MODEL]
    fit = ctx.run(GC + ".fit", opaque=(G + "fit", FMT))
    sup = [e for e in fit.events if e.kind == "call" and e.callee == G + "fit"]
    fm = [e for e in fit.events if e.kind == "call" and e.callee == FMT]
    coded = [e for e in fit.events if e.kind == "call" and e.callee in (".transform", ".fit_transform")]
    if not raw or not sup:
        ctx.abort("prediction or fit not recognised")
    for e in sup:
        y = e.kw("y", 2 if e.args and e.args[0] is ME else 1)
        if y is None:
            ctx.unk(e.where(), "target not recognised")
            continue
        src = [mk("item", f.res, const(1)) for f in fm] + [P(fit, "y", 1)]
        for leaf, facts in facts_of(y, e.guards):
            t = leaf
            while is_call(t, "pandas.Series", "numpy.array", "numpy.asarray") and t.args[1]:
                t = t.args[1][0]
            if t in src:
                ctx.ok(e.where(), "labels that need no encoding are used as they are")
            elif is_call(t, ".transform", ".fit_transform"):
                b = t.args[0].args[0]
                kept = attr_at(fit, e, ME, "_label_encoder")
                ctx.decide(True if b is kept or b is LE else (False if kept is not None and kept is not b and not vague(kept) else None), e.where(), "the encoder that encoded the labels is kept", "kept", show_(kept))
                ctx.decide(True if t.args[1] and t.args[1][0] in src else None, e.where(), "the labels encoded are those of the training data", "which")
                ix = kwarg(leaf, "index", 1) if is_call(leaf, "pandas.Series") else None
                if is_call(leaf, "pandas.Series"):
                    ctx.decide(True if ix is not None and is_attr(ix, "index") else (False if ix is None else None), e.where(), "encoded labels keep the index of the training data", "index")
            else:
                ctx.unk(e.where(), "target passed on not recognised: " + show_(t))
    encodes = any(is_call(x, ".transform", ".fit_transform") for e in sup for x in walk(e.kw("y", 2 if e.args and e.args[0] is ME else 1) or NONE))
    if not encodes:
        ctx.decide(None, sup[0].where(), "labels are encoded where needed", "encodes")
        return
    for e in r.returns():
        for leaf, facts in facts_of(e.value, e.guards):
            facts = {r.ex(f, e) for f in facts} | {x for f in facts for x in [exp(r, e, f)]}
            about = [f for f in facts if contains(f, lambda x: x is LE or x.op == "attr" and x.args[1] in ("classes_", "_label_encoder"))]
            if leaf in [x.res for x in raw]:
                ok = any(f.op == "cmp" and f.args[0] == "in" for f in about)
                wrong = any(f.op == "not" and f.args[0].op == "cmp" and f.args[0].args[0] == "in" for f in about)
                verdict = True if ok and not wrong else (False if not about or wrong and not ok else None)
                if verdict is None:
                    for size in (1, 2, 5, 1000):
                        env = {z: False for f in about for z in walk(f) if z.op == "cmp" and z.args[0] == "in" and contains(z, lambda q: q is LE)}
                        env.update({mk("len", leaf): size})
                        if all(foldb(f, env) is True for f in about):
                            verdict = False
                ctx.decide(verdict, e.where(), "predictions that are encoded labels are decoded", "decoded", show_(leaf))
            elif is_call(leaf, ".inverse_transform"):
                b = leaf.args[0].args[0]
                ctx.decide(True if b is LE else None, e.where(), "labels are decoded with the encoder of the training labels", "decoder", show_(b))
                wrong = any(f.op == "cmp" and f.args[0] == "in" for f in about)
                ctx.decide(False if wrong else (True if about else None), e.where(), "predictions that are labels already are left alone", "left")
            elif contains(leaf, lambda x: x in [y.res for y in raw]):
                ctx.unk(e.where(), "prediction not recognised: " + show_(leaf))


def col_count(t):
    return [x for x in walk(t) if is_call(x, ".nunique")]


def members(rr, e, z, n, nan, isc, flag):
    """Length of a list of columns if there is one categorical column, with n values."""
    sq = seqnorm(rr.ex(z, e))
    if sq is None or any(s[0] != "each" for s in sq):
        return None
    k = 0
    for s in sq:
        for g in s[1]:
            if g.op == "isinstance" and contains(g, lambda x: x.op == "attr" and x.args[1] == "dtype"):
                continue
            env = {flag(rr): const(isc)}
            for c in col_count(g):
                dn = kwarg(c, "dropna", 0)
                env[c] = const(n if dn is None or dn is TRUE else n + nan) if dn is None or is_const(dn) else c
            v = simplify(subst(g, env), ())
            if v is FALSE:
                break
            if v is not TRUE:
                return None
        else:
            k += 1
    return k


@rule("C11", "encoders", "every categorical column is encoded by exactly one encoder, whatever its number of values")
def c11_encoders(ctx):
    r = ctx.run(ENC)
    r2 = ctx.run(EXT)
    groups = []
    for rr in (r, r2):
        for e in rr.events:
            if e.kind == "call" and e.callee.split(".")[-1] in ("OrdinalEncoder", "OneHotEncoder", "TargetEncoder", "BinaryEncoder", "HashingEncoder", "CountEncoder", "LeaveOneOutEncoder", "CatBoostEncoder"):
                c = e.kw("cols", None)
                if c is None:
                    ctx.unk(e.where(), "columns of the encoder not recognised")
                    return
                if c.op == "ite" and any(l is NONE for l, _ in leaves(c)):
                    ctx.bad(e.where(), "NOT: an encoder only encodes the columns meant for it: without columns it is told none, and encodes all that are not numbers", "none-means-all")
                    return
                sq = seqnorm(rr.ex(c, e))
                if sq is None or any(s[0] != "each" for s in sq):
                    ctx.unk(e.where(), "columns of the encoder not recognised: " + show_(c))
                    return
                pub = any(contains(rr.ex(t, x), lambda y: y is rr.ex(e.res, x)) for x in rr.events if x.seq > e.seq and x is not e for t in list(x.args or ()) + ([x.value] if x.value is not None else []) if x.kind in ("call", "new", "return"))
                ctx.decide(pub, e.where(), "the encoder is part of the result", "used")
                groups.append((rr, e, sq))
    X = P(r, "x", 0)
    for e in r.events:
        if e.kind == "call" and e.callee in (".fit", ".fit_transform"):
            a = e.kw("X", 0)
            alt = altered(a, X) if a is not None else None
            ctx.decide(None if alt is None else not alt, e.where(), "the encoding is fitted on all of the data", "fitted", ", ".join(alt or ()))
    if not groups:
        ctx.abort("encoders not found")
    flag = lambda rr: P(rr, "is_classification", 1)
    for isc in (True, False):
        for n in range(0, 41):
            for nan in (0, 1):
                cover, odd = [], False
                for rr, e, sq in groups:
                    here = 0
                    for kind, guards, base, el in [(s[0], s[1], s[2], s[3]) for s in sq]:
                        ok = True
                        for g in tuple(guards) + tuple(e.guards):
                            if g.op == "isinstance" and contains(g, lambda x: x.op == "attr" and x.args[1] == "dtype"):
                                continue
                            env = {flag(rr): const(isc)}
                            for z in [z for z in walk(g) if z.op in ("listobj", "list")]:
                                k = members(rr, e, z, n, nan, isc, flag)
                                if k is not None:
                                    env[mk("len", z)] = env[z] = const(k)
                            for c in col_count(g):
                                dn = kwarg(c, "dropna", 0)
                                env[c] = const(n if dn is None or dn is TRUE else n + nan) if dn is None or is_const(dn) else c
                            v = simplify(subst(g, env), ())
                            if v is FALSE:
                                ok = False
                            elif v is not TRUE:
                                odd = True
                        here += ok
                    cover += [e] * here
                if odd:
                    ctx.unk(groups[0][1].where(), "choice of the columns not recognised")
                    return
                if len(cover) != 1:
                    kind = "classification" if isc else "regression"
                    ctx.decide(False, (cover or [groups[0][1]])[0].where(), f"a categorical column with {n} values is encoded exactly once ({kind})", f"values:{kind}", f"{len(cover)} times")
                    break
            else:
                continue
            break
        else:
            ctx.ok(groups[0][1].where(), f"categorical columns with 0..40 values are encoded exactly once ({'classification' if isc else 'regression'})")
