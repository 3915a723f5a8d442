"""Side effects: on what the caller passed in (C12), and on state shared between instances (C26)."""
from __future__ import annotations

import ast

from vp import logic
from vp.check import rule
from vp.project import dotted
from vp.rules.util import *  # noqa: F401,F403
from vp.rules.util import P

G = "gama.gama.Gama."
GC, GR = "gama.GamaClassifier.GamaClassifier", "gama.GamaRegressor.GamaRegressor"
ME = mk("param", "self")
OS = "gama.genetic_programming.operator_set.OperatorSet"
EV = "gama.genetic_programming.compilers.scikitlearn."
MUT = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "setdefault", "sort", "reverse", "add", "discard", "appendleft",
       "fill", "put", "itemset", "resize", "partition", "setflags", "__setitem__", "__delitem__", "__iadd__", "add_categories", "insert_row"}
MUTARG = ("random.shuffle", "numpy.random.shuffle", "heapq.heappush", "heapq.heappop", "heapq.heapify", "heapq.heappushpop", "heapq.heapreplace", "numpy.put", "numpy.copyto", "numpy.place", "numpy.putmask", "numpy.fill_diagonal", "bisect.insort")
VIEWS = (".squeeze", ".view", ".reshape", ".ravel", ".to_numpy", ".items", ".values", ".keys", ".get", "numpy.asarray", "numpy.asanyarray", "numpy.ravel", "numpy.atleast_1d", "numpy.squeeze", ".groupby", ".swapaxes", ".transpose", "operator.itemgetter")
COPIED = ("dtypes", "shape", "columns", "index", "__class__", "dtype", "ndim")


def maskish(i):
    """Subscripts that select by mask or list: the result is a copy."""
    return i.op in ("cmp", "not", "and", "or", "listobj", "list", "tuple", "call", "bin", "pure", "slice", "sl") or i.op == "unknown"


def shallow(b):
    """The container whose items a new container b shares: b itself, or what it is a shallow copy of."""
    for _ in range(4):
        if is_call(b, "collections.defaultdict") and len(b.args[1]) > 1:
            c = b.args[1][1]
        elif is_call(b, "collections.OrderedDict", "copy.copy") and b.args[1] or b.op == "pure" and b.args[0] in ("dict", "list", "tuple") and len(b.args[1]) == 1:
            c = b.args[1][0]
        elif b.op == "dict" and len(b.args[0]) == 1 and b.args[0][0].op == "seg_splice":
            c = b.args[0][0].args[0]
        else:
            return b
        if c.op not in ("param", "attr", "glob", "call", "pure", "item"):
            return b
        b = c
    return b


def roots(t, stop=(), depth=0):
    """Terms (parameters, globals, classes, attributes in stop) whose object t may be or be part of."""
    if depth > 40:
        return set()
    if t in stop:
        return {t}
    o = t.op
    if o in ("param", "glob", "cls"):
        return {t}
    if o in ("ite", "choice"):
        out = set()
        for l, _ in leaves(t):
            if l is not t:
                out |= roots(l, stop, depth + 1)
        return out
    if o == "attr":
        if t.args[1] in COPIED:
            return set()
        return roots(t.args[0], stop, depth + 1)
    if o == "item":
        b, i = t.args
        if b.op == "attr" and b.args[1] in ("loc", "iloc"):
            return set()
        if maskish(i):
            return set()
        if b.op in ("tuple",) and is_const(i):
            return set()
        return roots(shallow(b), stop, depth + 1)
    if o == "elem":
        b = shallow(t.args[0])
        if b.op in ("list", "tuple", "set"):
            out = set()
            for s in (segs(b) or ()):
                if s.op == "seg_each":
                    out |= roots(s.args[3], stop, depth + 1)
                elif s.op in ("seg_item",):
                    out |= roots(s.args[0], stop, depth + 1)
            return out
        return roots(b, stop, depth + 1)
    if o in ("sorted", "rev", "slice"):
        return set()
    if o == "loopphi":
        return set()
    if o == "call":
        if is_call(t, *VIEWS):
            f = t.args[0]
            if f.op == "attr":
                return roots(f.args[0], stop, depth + 1)
            return roots(t.args[1][0], stop, depth + 1) if t.args[1] else set()
        return set()
    return set()


def effects(r, stop=()):
    """[(event, root)] for every in-place change of an object that may come from a root."""
    out = []
    for e in r.events:
        tg = None
        if e.kind in ("setitem", "setslice", "setattr", "delitem", "delattr", "mutate", "aug"):
            tg = e.base
            if e.kind == "setattr" and tg is ME or tg is None:
                continue
            if e.kind == "setattr" and tg.op == "attr" and tg.args[0] is ME and tg not in stop:
                continue
            if e.kind == "setitem" and tg.op == "attr" and tg.args[1] in ("loc", "iloc", "at", "iat"):
                tg = tg.args[0]
        elif e.kind == "call":
            n = e.callee or ""
            if e.base is not None and n.startswith("."):
                inp = e.kw("inplace", None)
                if n[1:] in MUT or inp is TRUE:
                    tg = e.base
            elif n in MUTARG and e.args:
                tg = e.args[0]
            elif is_call(e.res, "numpy.nan_to_num") and e.kw("copy", None) is FALSE:
                tg = e.args[0]
        if tg is None:
            continue
        for x in roots(tg, stop):
            out.append((e, x))
    return out


def entries(ctx):
    """(entry point, class, parameters that belong to the caller, attributes that may)"""
    for q, cls, ps in ((GC + ".fit", GC, ("x", "y", "warm_start", "args", "kwargs")), (G + "fit", GR, ("x", "y", "warm_start")),
                       (G + "predict", GC, ("x",)), (G + "predict", GR, ("x",)), (GC + ".predict_proba", GC, ("x",)), (G + "score", GC, ("x", "y")), (G + "score", GR, ("x", "y")),
                       (GC + ".__init__", GC, ("search_space", "scoring")), (GR + ".__init__", GR, ("search_space", "scoring")),
                       ("gama.configuration.parser.pset_from_config", None, ("configuration",)),
                       ("gama.configuration.parser.merge_configurations", None, ("c1", "c2")),
                       ("gama.postprocessing.best_fit.BestFitPostProcessing.post_process", None, ("x", "y", "selection")),
                       ("gama.postprocessing.ensemble.EnsemblePostProcessing.post_process", None, ("x", "y", "selection")),
                       ("gama.utilities.evaluation_library.EvaluationLibrary.determine_sample_indices", None, ("stratify",)),
                       (EV + "evaluate_pipeline", None, ("x", "y_train", "metrics")),
                       ("gama.utilities.metrics.scoring_to_metric", None, ("scoring",)),
                       ("gama.utilities.export.transformers_to_str", None, ("transformers",)),
                       ("gama.data_formatting.format_x_y", None, ("x", "y"))):
        yield q, cls, ps
    for c in ("async_ea.AsyncEA", "asha.AsynchronousSuccessiveHalving", "random_search.RandomSearch"):
        yield f"gama.search_methods.{c}.dynamic_defaults", None, ("x", "y")


OPQ = (OS + ".individual", G + "cleanup", "#gama.utilities.generic.timekeeper.TimeKeeper.total_time_remaining")
DATA = tuple(mk("attr", ME, n) for n in ("_metrics", "_x", "_y"))


@rule("C12", "callers-objects", "no object the caller passed in is changed in place")
def c12_caller(ctx):
    n = 0
    for q, cls, ps in entries(ctx):
        if not ctx.has(q):
            continue
        r = ctx.run(q, self_cls=cls, opaque=OPQ)
        params = {mk("param", p) for p in ps}
        what = {p.args[0] for p in params}
        mine = {P(r, p) for p in ps} - {None}
        n += 1
        hits = []
        for e, root in effects(r, DATA):
            if root in DATA:
                # the attribute as it was on entry: perhaps the caller's object
                hits.append((e, root))
            elif root in params:
                if e.kind == "aug" and root.args[0] not in ("x", "y", "y_train", "stratify"):
                    continue
                hits.append((e, root))
        label = q.split(".", 1)[1] if cls is None else f"{cls.rsplit('.', 1)[1]}.{q.rsplit('.', 1)[1]}"
        seen = set()
        for e, root in hits:
            k = (e.where(), root)
            if k in seen:
                continue
            seen.add(k)
            ctx.decide(False, e.where(), f"{label} does not change {show_(root)}", f"changed:{label}:{show_(root)}", f"{e.kind} {e.name or e.callee}")
        for p in sorted(what - {root.args[0] for _, root in hits if root.op == "param"}):
            ctx.ok(q, f"{label} changes nothing reachable from {p} ({len(r.events)} effects)")
    if not n:
        ctx.abort("no entry point found")


@rule("C12|C26", "metrics", "metrics the caller provided are not changed when they are adapted to the data")
def c12_metrics(ctx):
    r = ctx.run(GC + ".fit", opaque=OPQ + (G + "fit",))
    M = mk("attr", ME, "_metrics")
    n = 0
    for e in r.events:
        tg = e.base
        if e.kind == "call" and e.callee and e.callee[1:] in MUT or e.kind in ("setitem", "mutate", "setattr"):
            if tg is None or tg is ME:
                continue
            if not contains(tg, lambda x: is_attr(x, "scorer") or is_attr(x, "_kwargs")):
                continue
            n += 1
            cp = [x for x in walk(tg) if is_call(x, "copy.deepcopy") or x.op == "deepcopy" or is_call(x, "sklearn.base.clone")]
            shared = bool(roots(tg, (M,)) & {M})
            shallow = [x for x in walk(tg) if is_call(x, "copy.copy") or x.op == "copy"]
            ctx.decide(True if cp else (False if shared or shallow else None), e.where(), "the metrics changed are copies", "copies", show_(tg))
    if not n:
        ctx.ok(GC + ".fit", "no metric is changed")


# ---------------------------------------------------------------- C26
def funcs(ctx):
    return [f for f in ctx.p.all_funcs()]


def local_names(node):
    out = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        out.add(x.arg)
    glob = {n for s in ast.walk(node) if isinstance(s, ast.Global) for n in s.names}
    for s in ast.walk(node):
        if isinstance(s, ast.Name) and isinstance(s.ctx, (ast.Store, ast.Del)):
            out.add(s.id)
        elif isinstance(s, ast.arg):
            out.add(s.arg)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            out |= {(n.asname or n.name).split(".")[0] for n in s.names}
        elif isinstance(s, ast.ExceptHandler) and s.name:
            out.add(s.name)
    return out - glob, glob


def mutated(node):
    """(expression changed in place, AST node) in a function."""
    for s in ast.walk(node):
        if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in MUT:
            yield s.func.value, s
        elif isinstance(s, (ast.Assign, ast.AugAssign, ast.Delete, ast.AnnAssign)):
            ts = s.targets if isinstance(s, (ast.Assign, ast.Delete)) else [s.target]
            for t in ts:
                for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                    if isinstance(x, ast.Subscript):
                        yield x.value, s
                    if isinstance(s, ast.AugAssign) and isinstance(x, (ast.Name, ast.Attribute)):
                        yield x, s
        elif isinstance(s, ast.Call) and (dotted(s.func) or "") in ("random.shuffle", "np.random.shuffle", "heapq.heappush", "heapq.heappop", "heapq.heapify") and s.args:
            yield s.args[0], s


def base_name(x):
    while isinstance(x, (ast.Subscript, ast.Attribute)):
        x = x.value
    return x.id if isinstance(x, ast.Name) else None


MUTABLE_CALLS = {"dict", "list", "set", "defaultdict", "OrderedDict", "deque", "Counter", "bytearray", "collections.defaultdict", "collections.OrderedDict", "collections.deque", "collections.Counter"}


def mutable_expr(p, mod, x):
    """'container' | 'object' | None for a default value or class attribute."""
    if isinstance(x, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return "container"
    if isinstance(x, ast.Call):
        d = dotted(x.func) or ""
        if d in MUTABLE_CALLS:
            return "container"
        q = p.resolve_expr(mod, x.func)
        if getattr(q, "qual", None) and type(q).__name__ == "Class":
            frozen = any("frozen" in ast.dump(dc) or "NamedTuple" in ast.dump(dc) for dc in q.node.decorator_list) or any("NamedTuple" in ast.dump(b) or "Enum" in ast.dump(b) for b in q.node.bases)
            return None if frozen else "object"
    return None


def is_logger(ctx, q):
    """Is the module variable a logger?"""
    mod, _, name = q.rpartition(".")
    m = ctx.p.modules.get(mod)
    for s in m.tree.body if m is not None else ():
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, ast.Call) and (dotted(s.value.func) or "").endswith("getLogger"):
            if any(isinstance(t, ast.Name) and t.id == name for t in (s.targets if isinstance(s, ast.Assign) else [s.target])):
                return True
    return False


@rule("C26", "module-state", "no function changes objects that live in a module")
def c26_module(ctx):
    n = 0
    for f in funcs(ctx):
        loc, glob = local_names(f.node)
        for x, s in mutated(f.node):
            b = base_name(x)
            if b is None or b in loc or b in ("self", "cls"):
                continue
            q = ctx.p.resolve_name(f.module, b)
            kind = None
            if isinstance(q, tuple) and q and q[0] == "glob":
                kind = "glob"
            elif isinstance(q, tuple) and q and q[0] == "ext":
                if q[1].split(".")[0] in ("warnings", "logging", "os", "sys", "np", "numpy", "random", "pd", "pandas"):
                    continue
                kind = None
            elif getattr(q, "qual", None) and type(q).__name__ == "Class":
                kind = "cls"
            if kind is None:
                continue
            if kind == "glob" and is_logger(ctx, f"{q[1].name}.{q[2]}"):
                continue
            n += 1
            ctx.decide(False, f"{f.path if hasattr(f, 'path') else f.qual}:{s.lineno}", f"{f.qual} does not change {b}", f"{f.qual}:{b}")
        for g in glob:
            wr = [s for s in ast.walk(f.node) if isinstance(s, ast.Name) and s.id == g and isinstance(s.ctx, ast.Store)]
            if wr:
                n += 1
                ctx.decide(False, f"{f.qual}:{wr[0].lineno}", f"{f.qual} does not change the module variable {g}", f"{f.qual}:global {g}")
        decs = [dotted(d.func if isinstance(d, ast.Call) else d) or "" for d in getattr(f.node, "decorator_list", ())]
        if any(d.split(".")[-1] in ("lru_cache", "cache", "cached_property") and not d.endswith("cached_property") for d in decs):
            imm = all(s.value is None or isinstance(s.value, (ast.Constant, ast.Compare, ast.JoinedStr, ast.Tuple, ast.BoolOp)) for s in ast.walk(f.node) if isinstance(s, ast.Return))
            mut = any(mutable_expr(ctx.p, f.module, s.value) for s in ast.walk(f.node) if isinstance(s, ast.Return) and s.value is not None)
            if not imm:
                ctx.decide(False if mut else None, f"{f.qual}:{f.node.lineno}", f"what {f.qual} returns is not shared between instances", f"{f.qual}:cached")
    ctx.ok("gama/", f"{len(funcs(ctx))} functions change no module variable" if not n else "functions looked at")
    for q, cls, ps in entries(ctx):
        if not ctx.has(q):
            continue
        r = ctx.run(q, self_cls=cls, opaque=OPQ)
        hits = {(e.where(), root): (e, root) for e, root in effects(r) if root.op == "glob" and not is_logger(ctx, root.args[0])}
        for e, root in hits.values():
            ctx.decide(False, e.where(), f"{q} does not change {show_(root)}", f"{q}:{show_(root)}")
        if not hits:
            ctx.ok(q, "nothing that lives in a module is changed")


@rule("C26", "search-space", "the built-in search spaces are not changed by instances using them")
def c26_space(ctx):
    r = ctx.run(G + "__init__", opaque=(G + "cleanup",))
    sp = P(r, "search_space")
    n = [(e, x) for e, x in effects(r) if x is sp]
    for e, x in n:
        ctx.decide(False, e.where(), "the constructor does not change the search space", "changed")
    if not n:
        ctx.ok(G + "__init__", "the constructor does not change the search space")
    ps = ctx.run("gama.configuration.parser.pset_from_config")
    for e in ps.returns():
        v = ps.ex(e.value, e)
        t = v.args[0][0] if v.op == "tuple" and v.args[0] else None
        raw = e.value.args[0][0] if e.value.op == "tuple" and e.value.args[0] else None
        ctx.decide(True if raw is not None and raw.op in ("obj", "dictobj", "call") else (False if raw is not None and raw.op in ("param", "glob") else None), e.where(), "every instance gets its own primitive set", "own", show_(raw))
    fit = ctx.run(G + "fit", opaque=OPQ)
    k = [e for e in fit.events if e.kind in ("setitem", "delitem", "mutate", "setattr") and e.base is not None and contains(e.base, lambda x: is_attr(x, "_pset"))]
    for e in k:
        own = e.base is mk("attr", ME, "_pset") or bool(roots(e.base) & {ME})
        ctx.decide(True if own else None, e.where(), "what fit excludes from the search space is excluded for this instance only", "own-pset")


@rule("C26", "class-state", "nothing mutable is shared through a class")
def c26_class(ctx):
    n = 0
    for c in ctx.p.all_classes.values() if isinstance(ctx.p.all_classes, dict) else ctx.p.all_classes():
        shared = {}
        for s in c.node.body:
            tgt = None
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                tgt, v = s.targets[0].id, s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                tgt, v = s.target.id, s.value
            if tgt and mutable_expr(ctx.p, c.module, v):
                shared[tgt] = s
        if not shared:
            continue
        meths = [f for f in funcs(ctx) if f.qual.startswith(c.qual + ".")]
        own = set()
        for f in meths:
            if f.qual.endswith(".__init__"):
                own |= {t.attr for s in ast.walk(f.node) if isinstance(s, (ast.Assign, ast.AnnAssign)) for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self"}
        for name, s in shared.items():
            n += 1
            bad = None
            for f in funcs(ctx):
                inside = f.qual.startswith(c.qual + ".")
                for x, st in mutated(f.node):
                    while isinstance(x, ast.Subscript):
                        x = x.value
                    if isinstance(x, ast.Attribute) and x.attr == name:
                        b = dotted(x.value) or ""
                        if inside and b in ("self", "cls", c.qual.rsplit(".", 1)[1]) or b == c.qual.rsplit(".", 1)[1]:
                            if name in own and b == "self":
                                continue
                            if isinstance(st, ast.AugAssign) and b == "self" and x is st.target and mutable_expr(ctx.p, c.module, s.value) != "container":
                                continue
                            bad = (f, st)
            w = f"{c.qual}:{s.lineno}"
            if bad:
                ctx.decide(False, f"{bad[0].qual}:{bad[1].lineno}", f"{c.qual}.{name}, shared by all instances, is not changed", f"{c.qual}.{name}")
            else:
                ctx.ok(w, f"{c.qual}.{name} is never changed in place")
    # assignments to attributes of classes
    w = 0
    for f in funcs(ctx):
        loc, _ = local_names(f.node)
        for s in ast.walk(f.node):
            tg = []
            if isinstance(s, (ast.Assign, ast.AugAssign)):
                tg = [(t.value, t.attr, s) for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Attribute)]
            elif isinstance(s, ast.Call) and dotted(s.func) == "setattr" and len(s.args) == 3:
                tg = [(s.args[0], ast.unparse(s.args[1]).strip("'\""), s)]
            for b, a, st in tg:
                d = dotted(b)
                if d is None or d.split(".")[0] in loc - {"self", "cls"}:
                    continue
                if d in ("cls", "self.__class__", "type(self)") or (isinstance(b, ast.Call) and dotted(b.func) == "type"):
                    ctx.decide(False, f"{f.qual}:{st.lineno}", f"{f.qual} does not store {a} in a class", f"{f.qual}:{a}")
                    w += 1
                    continue
                q = ctx.p.resolve_expr(f.module, b) if d.split(".")[0] != "self" else None
                if type(q).__name__ == "Class":
                    w += 1
                    if q.qual.endswith("AsyncEvaluator"):
                        continue        # rule evaluator-state
                    ctx.decide(False, f"{f.qual}:{st.lineno}", f"{f.qual} does not store {a} in the class {q.qual}", f"{f.qual}:{a}")
    ctx.ok("gama/", f"{n} mutable class attributes, {w} assignments to class attributes looked at")


@rule("C26", "evaluator-state", "every search sets all settings of the evaluator class before it uses it")
def c26_evaluator(ctx):
    AEQ = "gama.utilities.generic.async_evaluator.AsyncEvaluator"
    r = ctx.run(G + "_search_phase", opaque=(OS + ".individual",))
    ss = [e for e in r.events if e.kind == "call" and e.callee == ".search"]
    if not ss:
        ctx.abort("search call not found")
    sets = [e for e in r.events if e.kind == "setattr" and e.base is not None and e.base.op == "cls" and e.base.args[0] == AEQ]
    if not sets:
        ctx.ok(G + "_search_phase", "the evaluator class holds no settings")
        return
    for e in sets:
        extra = [g for g in e.guards if g not in ss[0].guards]
        ctx.decide(True if not extra else (None if vague(extra[0]) else False), e.where(), f"{e.name} is set for every search", f"always:{e.name}", show_(extra[0]) if extra else "")
        ctx.decide(e.seq < ss[0].seq, e.where(), f"{e.name} is set before the search", f"before:{e.name}")
        if e.name == "defaults":
            v = r.ex(e.value, e)
            upd = e.value is mk("attr", e.base, "defaults") or contains(v, lambda x: x.op == "attr" and x.args[1] == "defaults")
            ctx.decide(False if upd else True, e.where(), "defaults of an earlier search are not kept", "replaced", show_(v))
    upd = [e for e in r.events if e.kind in ("mutate", "setitem") or e.kind == "call" and (e.callee or "")[1:] in MUT]
    for e in upd:
        if e.base is not None and e.base.op == "attr" and e.base.args[1] == "defaults" and e.base.args[0].op == "cls":
            ctx.decide(False, e.where(), "defaults of an earlier search are not kept", "merged")
    i = ctx.run(G + "__init__", opaque=(G + "cleanup",))
    conf = attr_at(i, None, ME, "_evaluator_configuration")
    conf = i.ex(conf, i.events[-1]) if conf is not None else None
    if conf is None or conf.op != "dict":
        ctx.unk(G + "__init__", "settings of the evaluator not recognised")
        return
    f = ctx.p.func(AEQ + ".__init__")
    names = [a.arg for a in f.node.args.args[1:] + f.node.args.kwonlyargs]
    given, cond = set(), set()
    for s in conf.args[0]:
        if s.op == "seg_pair" and is_const(s.args[0]):
            given.add(s.args[0].args[0])
        elif s.op == "seg_if":
            for x in walk(s):
                if x.op == "seg_pair" and is_const(x.args[0]):
                    cond.add(x.args[0].args[0])
        else:
            ctx.unk(G + "__init__", "settings of the evaluator not recognised: " + show_(s))
            return
    for k in sorted(cond - given):
        ctx.decide(False, G + "__init__", f"{k} is set by every instance, so that the value of another one is not used", f"config:{k}")
    for k in sorted(given):
        ctx.decide(k in names or None, G + "__init__", f"{k} is set by every instance", f"known:{k}")


@rule("C26", "defaults", "no argument default is shared between calls and changed or kept")
def c26_defaults(ctx):
    n = 0
    attrs_mut = set()
    for f in funcs(ctx):
        for x, s in mutated(f.node):
            while isinstance(x, ast.Subscript):
                x = x.value
            if isinstance(x, ast.Attribute):
                attrs_mut.add(x.attr)
    for f in funcs(ctx):
        a = getattr(f.node, "args", None)
        if a is None or not hasattr(f.node, "body") or not isinstance(f.node.body, list):
            continue
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(k, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in pairs:
            kind = mutable_expr(ctx.p, f.module, d)
            if not kind:
                continue
            n += 1
            name = p.arg
            changed = [s for x, s in mutated(f.node) if base_name(x) == name and not isinstance(x, ast.Attribute)]
            kept = [t.attr for s in ast.walk(f.node) if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, ast.Name) and s.value.id == name for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Attribute)]
            called = [s for s in ast.walk(f.node) if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and base_name(s.func.value) == name]
            ret = any(isinstance(s, ast.Return) and isinstance(s.value, ast.Name) and s.value.id == name for s in ast.walk(f.node))
            bad = bool(changed) or bool(set(kept) & attrs_mut) or kind == "object" and bool(kept)
            ctx.decide(False if bad else (True if not kept and not called and not ret else None), f"{f.qual}:{d.lineno}", f"the default of {name} in {f.qual} is not shared", f"{f.qual}:{name}")
    ctx.ok("gama/", f"argument defaults of {len(funcs(ctx))} functions looked at: {n} mutable")


@rule("C26", "fresh", "every instance gets its own search method, post-processing, library and list of callbacks")
def c26_fresh(ctx):
    r = ctx.run(G + "__init__", opaque=(G + "cleanup",))
    end = r.events[-1]
    for name, given in (("_search_method", "search"), ("_post_processing", "post_processing"), ("_subscribers", None), ("_evaluation_library", None), ("_time_manager", None), ("_operator_set", None), ("_final_pop", None), ("_pset", None)):
        sets = [e for e in r.events if e.kind == "setattr" and e.base is ME and e.name == name]
        if not sets:
            ctx.unk(G + "__init__", f"{name} is not set")
            continue
        for leaf, f in leaves(sets[-1].value):
            new = leaf.op in ("obj", "dictobj", "listobj", "setobj") or leaf.op == "call" or leaf.op == "new"
            rt = roots(leaf)
            if given and leaf is P(r, given):
                ctx.ok(sets[-1].where(), f"{given} of the caller is used")
                continue
            shared = {x for x in rt if x.op in ("glob", "cls")}
            ctx.decide(True if new else (False if shared else None), sets[-1].where(), f"{name} is made for this instance", name, show_(leaf))


@rule("C26", "log-files", "what one instance logs is not written to the log file of another")
def c26_logs(ctx):
    r = ctx.run(G + "__init__", opaque=(G + "cleanup",))
    add = [e for e in r.events if e.kind == "call" and e.callee.endswith("addHandler") and any(contains(a, lambda x: is_call(x, "logging.FileHandler")) for a in e.args)]
    rem = [f for f in funcs(ctx) for s in ast.walk(f.node) if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ("removeHandler", "addFilter")]
    for e in add:
        ctx.decide(None if rem else False, e.where(), "an instance's log file gets the messages of that instance only", "log-handler:Gama.__init__")
    if not add:
        ctx.ok(G + "__init__", "no log file is attached to a shared logger")
